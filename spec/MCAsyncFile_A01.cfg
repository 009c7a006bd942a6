SPECIFICATION MCSpec
CONSTANTS NSlot = 1 NCtx = 2 MaxActive = 3 Emitting = TRUE Depth = 0
  Acts = {"new","open","start","closed","del"}
  LateTransfers = FALSE
  Disk0 <- D0
INVARIANTS Safe EmitI
PROPERTIES OnceDone OnlyPoolWrites
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
