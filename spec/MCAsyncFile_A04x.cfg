SPECIFICATION MCSpec
CONSTANTS NSlot = 2 NCtx = 2 MaxActive = 1 Emitting = TRUE Depth = 0
  Acts = {"nat","open","cancel","mc","ma","del","start","run"}
  LateTransfers = FALSE
  Disk0 <- D0
INVARIANTS Safe EmitI
PROPERTIES OnceDone OnlyPoolWrites
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
