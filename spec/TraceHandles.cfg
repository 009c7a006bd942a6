SPECIFICATION TraceSpec
CONSTANTS Slots = {1, 2, 3, 4, 5, 6}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
