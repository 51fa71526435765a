CONSTANTS
 Variant = "ok"
 Universe = "chars"
 P = 4
 N = 3
SPECIFICATION Spec
INVARIANT Emit Plain Itself
CHECK_DEADLOCK FALSE
