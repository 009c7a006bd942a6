SPECIFICATION MCFair
CONSTANTS NThr = 2 NSlot = 1 NCtx = 1 NPool = 1 MaxOp = 2 Emitting = FALSE
INVARIANTS Promise PoolSize RunsOnOpen Once
PROPERTIES Completes
CHECK_DEADLOCK FALSE
