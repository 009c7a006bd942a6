SPECIFICATION MCSpec
CONSTANTS Emitting = TRUE
INVARIANTS EmitI Complement Morgan XorTwice HasAny PermsFit ModeBits
ACTION_CONSTRAINT Emit
VIEW View1
CHECK_DEADLOCK FALSE
