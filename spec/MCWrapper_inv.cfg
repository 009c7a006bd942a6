SPECIFICATION MCSpec
CONSTANTS NS = 1 NCtx = 2 Emitting = TRUE Posting = FALSE MaxLayers = 2
INVARIANTS OneOwner CalledOnce EmitI
PROPERTIES Final
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
