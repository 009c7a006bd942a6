SPECIFICATION TraceSpec
CONSTANTS Aspect = "verdict"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
