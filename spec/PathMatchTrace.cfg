CONSTANTS
 Variant = "ok"
SPECIFICATION TSpec
INVARIANT Conforms
POSTCONDITION Consumed
ALIAS Short
CHECK_DEADLOCK FALSE
