SPECIFICATION MCSpec
CONSTANTS Files = {1} Slots = {1, 2} Emitting = TRUE MaxSize = 2 MaxPos = 3 NDesc = 2
INVARIANTS Inside PosOk Functional EmitI
PROPERTIES Positional ReadsOnly ReadBack
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
