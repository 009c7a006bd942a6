SPECIFICATION MCSpec
CONSTANTS Emitting = TRUE MaxEps = 3
INVARIANTS Lively EmitI
PROPERTIES First Fair
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
