CONSTANTS
 Variant = "code"
 Depth = 0
SPECIFICATION Spec
INVARIANT Lists Decides Canonical
CHECK_DEADLOCK FALSE
