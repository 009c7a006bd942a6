\* two buffers, copies and moves, every kind of allocator
SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2} Allocs = {0, 1} Big = 1000000000 Data <- Data2 MaxLen = 1 MaxSizes = {1}
          Fails = {FALSE} Kinds = {0, 1, 2} TwoSlot = TRUE Emitting = TRUE
INVARIANTS Bounded EmitI
PROPERTY Atomic
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
