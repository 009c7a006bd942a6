SPECIFICATION TraceSpec
CONSTANTS Names = {"a", "b", "l", "m"} Odd = {"nodir", "notdir", "empty", "long"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
