SPECIFICATION MCSpec
CONSTANTS Names = {1} Emitting = TRUE Lens = {0, 1, 3}
INVARIANT EmitI
PROPERTIES ReadsAll ReadsFull ReadsOnly WritesAll
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
