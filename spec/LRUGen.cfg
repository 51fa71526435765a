CONSTANTS
 Keys = {"i0", "i1", "s0", "e"}
 Values = {1, 2}
 Caps = {1, 2, 3}
 Sync = FALSE
SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Emit
INVARIANT StateOK PutThenGet UseKeeps EvictsOldest
CHECK_DEADLOCK FALSE
