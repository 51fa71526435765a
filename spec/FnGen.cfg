CONSTANTS
 Variant = "ok"
 Universe = "regexMatch"
 N = 1
 P = 4
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
