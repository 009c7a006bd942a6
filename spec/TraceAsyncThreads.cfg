SPECIFICATION TraceSpec
CONSTANTS NThr = 4 NSlot = 3
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
