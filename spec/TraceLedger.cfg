SPECIFICATION TraceSpec
CONSTANTS
  Owners = {o1}
  Kinds = {"mem", "fds", "threads"}
  MaxHeld = 1
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
