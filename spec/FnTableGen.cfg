CONSTANTS
 Variant = "ok"
 D = 3
 M = 2
SPECIFICATION Spec
INVARIANT Emit Own
CHECK_DEADLOCK FALSE
