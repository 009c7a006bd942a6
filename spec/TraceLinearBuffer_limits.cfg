SPECIFICATION TraceSpec
CONSTANTS Slots = {1, 2} Allocs = {0, 1} Big = 1000000000 Focus = "limits"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
