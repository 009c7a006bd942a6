SPECIFICATION MCSpec
CONSTANTS NSlot = 2 NCtx = 1 MaxActive = 2 Emitting = TRUE Depth = 0
  Acts = {"new","nat","ctor","open","openfail","close","cancel","mc","ma","del","start"}
  LateTransfers = FALSE
  Disk0 <- D0
INVARIANTS Safe EmitI
PROPERTIES OnceDone OnlyPoolWrites
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
