SPECIFICATION MCSpec
CONSTANTS Names = {"a", "l"} Odd = {} Emitting = TRUE
INVARIANTS EmitI
PROPERTIES OnlyCreating OnlyTruncating FailureIsClean NeverRemoved ModesKept NewIsNew
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
