SPECIFICATION CSpec
INVARIANT StateOK
CHECK_DEADLOCK FALSE
