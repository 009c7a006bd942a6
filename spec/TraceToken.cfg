SPECIFICATION TraceSpec
CONSTANTS NSrc = 3 NTok = 4
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
