CONSTANTS
 Variant = "ok"
 Universe = "segs"
 P = 4
 N = 3
SPECIFICATION Spec
INVARIANT Agree Plain Itself Whole
CHECK_DEADLOCK FALSE
