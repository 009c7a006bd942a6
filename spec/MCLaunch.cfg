SPECIFICATION MCSpec
CONSTANTS Emitting = TRUE MaxLen = 3 MaxIds = 1
INVARIANT EmitI
PROPERTIES Quiet LazyQuiet Same
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
