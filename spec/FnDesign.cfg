CONSTANTS
 Variant = "ok"
 Universe = "regexMatch"
 N = 1
 P = 3
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
