SPECIFICATION TraceSpec
CONSTANTS Slots = {1, 2, 3, 4}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
