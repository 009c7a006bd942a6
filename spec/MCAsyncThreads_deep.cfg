SPECIFICATION MCSpec
CONSTANTS NThr = 2 NSlot = 1 NCtx = 1 NPool = 2 MaxOp = 3 Emitting = FALSE
INVARIANTS Promise PoolSize RunsOnOpen Once
VIEW StateView
CHECK_DEADLOCK FALSE
