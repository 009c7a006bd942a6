SPECIFICATION MCSpec
CONSTANTS Bits = {2, 4} Units = {1, 2, 3, 6}
INVARIANTS SplitDetermined JoinDetermined Inverse CastDetermined
CHECK_DEADLOCK FALSE
