SPECIFICATION TraceSpec
CONSTANTS NS = 3 NCtx = 2 What = "work"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
