SPECIFICATION MCSpec
CONSTANTS NSlot = 2 NCtx = 1 MaxActive = 3 Emitting = TRUE Depth = 0
  Acts = {"nat","open","close","cancel","start","run","closed"}
  LateTransfers = FALSE
  Disk0 <- D0
INVARIANTS Safe EmitI
PROPERTIES OnceDone OnlyPoolWrites
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
