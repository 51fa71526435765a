CONSTANTS
 N = 4
 Variant = "code"
SPECIFICATION MSpec
INVARIANT Right
PROPERTY Answers
CHECK_DEADLOCK FALSE
