SPECIFICATION MCSpec
CONSTANTS Pieces = {"http", "sep", "a", "colon", "slash", "quest", "hash", "at", "open", "close", "zone", "v6", "p5", "p6"} MaxLen = 4
INVARIANTS Agree Lossless Dead InOrder PortRange
CHECK_DEADLOCK FALSE
