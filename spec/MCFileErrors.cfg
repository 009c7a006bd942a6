SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2} Emitting = TRUE
INVARIANT EmitI
PROPERTIES FailureKeeps CloseLetsGo InjectedIsReported NeverInterrupted
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
