SPECIFICATION TraceSpec
CONSTANTS NS = 3 NCtx = 2 What = "identity"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
