SPECIFICATION MCSpec
CONSTANTS Bits = {2, 3, 4} Units = {1, 2, 3, 4, 6, 12}
INVARIANTS SplitDetermined JoinDetermined Inverse CastDetermined
CHECK_DEADLOCK FALSE
