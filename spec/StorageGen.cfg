CONSTANTS
 Universe = "simple"
 K = 0
 Variant = "ok"
SPECIFICATION GSpec
VIEW GView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT StepsOK NothingLost
CHECK_DEADLOCK FALSE
