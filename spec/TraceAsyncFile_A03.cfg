SPECIFICATION TraceSpec
CONSTANTS
  NSlot = 3
  NCtx = 2
  LateTransfers = FALSE
  Disk0 <- InitialDisk
  Check = {"cancel","disk","decoy","ret"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
