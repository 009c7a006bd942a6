SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2, 3} Emitting = TRUE
CONSTANTS Perms <- PermsC Times <- TimesC Far <- FarC
INVARIANT EmitI
PROPERTIES AddOnlyAdds Apart AskingChangesNothing
ACTION_CONSTRAINT Emit
VIEW V
CHECK_DEADLOCK FALSE
