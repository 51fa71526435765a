CONSTANTS
 Universe = "one"
 K = 0
 Variant = "code"
SPECIFICATION ISpec
INVARIANT Alone
ACTION_CONSTRAINT Show
CHECK_DEADLOCK FALSE
