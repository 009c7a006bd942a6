SPECIFICATION Spec
CONSTANTS
  Owners = {o1, o2, o3}
  Kinds = {"mem", "fds"}
  MaxHeld = 2
INVARIANT NothingLeft
INVARIANT NoneOwedByTheDead
CHECK_DEADLOCK FALSE
