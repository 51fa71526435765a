CONSTANTS
 N = 5
 C = 2
 Variant = "ok"
SPECIFICATION Spec
INVARIANT Emit RoundTrip Total
CHECK_DEADLOCK FALSE
