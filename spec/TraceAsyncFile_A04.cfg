SPECIFICATION TraceSpec
CONSTANTS
  NSlot = 3
  NCtx = 2
  LateTransfers = FALSE
  Disk0 <- InitialDisk
  Check = {"state","cancel","result","ret"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
