\* one buffer, contents in full
SPECIFICATION MCSpec
CONSTANTS Slots = {1} Allocs = {0} Big = 1000000000 Data <- Data1 MaxLen = 3 MaxSizes = {2, 3}
          Fails = {TRUE, FALSE} Kinds = {0} TwoSlot = FALSE Emitting = TRUE
INVARIANTS Bounded EmitI
PROPERTY Atomic
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
