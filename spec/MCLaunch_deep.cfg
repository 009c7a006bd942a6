SPECIFICATION MCSpec
CONSTANTS Emitting = FALSE MaxLen = 3 MaxIds = 2
PROPERTIES Quiet LazyQuiet Same
CONSTRAINT Bound
VIEW View1
CHECK_DEADLOCK FALSE
