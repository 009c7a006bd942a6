SPECIFICATION TraceSpec
CONSTANTS Files = {1, 2} Slots = {1, 2, 3, 4}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
