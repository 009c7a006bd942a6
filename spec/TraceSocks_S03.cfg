SPECIFICATION TraceSpec
CONSTANTS Aspect = "consumed"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
