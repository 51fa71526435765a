CONSTANTS
 Universe = "decide"
 K = 0
SPECIFICATION GSpec
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
