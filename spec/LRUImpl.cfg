CONSTANTS
 Keys = {"a", "b", "c", "d"}
 Values = {1, 2}
 Cap = 3
 Variant = "code"
SPECIFICATION Spec
INVARIANT ReplyOK Refines Consistent
CHECK_DEADLOCK FALSE
