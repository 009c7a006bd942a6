SPECIFICATION MCSpec
CONSTANTS NS = 2 Emitting = TRUE MaxH = 2
INVARIANTS OneOwner NothingLost AtMostOnce EmitI
PROPERTIES Final
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
