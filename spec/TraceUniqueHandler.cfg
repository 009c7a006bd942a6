SPECIFICATION TraceSpec
CONSTANTS NS = 3
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
