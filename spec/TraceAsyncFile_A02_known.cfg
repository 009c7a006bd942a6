SPECIFICATION TraceSpec
CONSTANTS
  NSlot = 3
  NCtx = 2
  LateTransfers = TRUE
  Disk0 <- InitialDisk
  Check = {"result","disk","decoy"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
