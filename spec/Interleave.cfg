CONSTANTS
 Universe = "one"
 K = 0
 Variant = "code"
SPECIFICATION ISpec
INVARIANT Alone
CHECK_DEADLOCK FALSE
