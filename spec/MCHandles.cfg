SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2, 3} Emitting = TRUE MaxFd = 2
INVARIANTS OneOwner OwnedOpen EmitI
PROPERTIES ClosedByOwner ReleaseKeeps NoLeak
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
