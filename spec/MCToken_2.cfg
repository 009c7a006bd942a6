SPECIFICATION MCSpec
CONSTANTS NSrc = 2 NTok = 2 Emitting = TRUE
INVARIANTS Identities EmitI
PROPERTIES Stays OnlyOwnSource
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
