SPECIFICATION TraceSpec
CONSTANTS Aspect = "request"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
