CONSTANTS
 Universe = "reach"
 K = 1
SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Emit
INVARIANT TransitiveWithinLimit Isolation Independent Monotone
CHECK_DEADLOCK FALSE
