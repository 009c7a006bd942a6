SPECIFICATION TraceSpec
CONSTANT Big = 1000000000
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
