SPECIFICATION MCSpec
CONSTANTS NSrc = 3 NTok = 3 Emitting = TRUE
INVARIANTS Identities EmitI
PROPERTIES Stays OnlyOwnSource
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
