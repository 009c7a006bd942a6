SPECIFICATION MCSpec
CONSTANTS Big = 1000000000 MaxLen = 3 Emitting = TRUE
INVARIANTS WithinLimit EmitI
PROPERTIES InputStable Atomic
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
