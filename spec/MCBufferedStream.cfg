SPECIFICATION MCSpec
CONSTANTS Emitting = TRUE MaxQ = 2 LimW = 2 LimR = 2
INVARIANTS NeverAhead ReadInOrder EmitI
PROPERTIES InOrder
CONSTRAINT Few
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
