SPECIFICATION MCSpec
CONSTANTS
  Emitting = TRUE
  Mode = "replies"
  MaxOps = 1
VIEW V
INVARIANT NoDoubt TailSafe Decides
PROPERTY Granted
ACTION_CONSTRAINT Emit
INVARIANT EmitI
CHECK_DEADLOCK FALSE
