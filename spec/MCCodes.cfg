SPECIFICATION MCSpec
CONSTANTS Emitting = TRUE
INVARIANTS EmitI Distinct OneName Foreign
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
