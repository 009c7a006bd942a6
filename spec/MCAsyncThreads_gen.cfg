SPECIFICATION GenSpec
CONSTANTS NThr = 1 NSlot = 2 NCtx = 2 NPool = 1 MaxOp = 8 Emitting = TRUE
INVARIANTS EmitI
ACTION_CONSTRAINT Emit
CONSTRAINT Small
VIEW View1
CHECK_DEADLOCK FALSE
