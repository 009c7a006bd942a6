SPECIFICATION TraceSpec
CONSTANTS Names = {1, 2}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
