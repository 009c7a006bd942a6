SPECIFICATION MCSpec
CONSTANTS Pieces = {"a", "one", "colon", "slash", "quest", "hash", "at", "open", "close", "pct", "dot", "space"} MaxLen = 5
INVARIANTS Agree Lossless Dead InOrder PortRange
CHECK_DEADLOCK FALSE
