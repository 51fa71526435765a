CONSTANTS
 Threads = {1, 2}
 N = 3
 Lock = "exclusive"
 Gets = 2
SPECIFICATION Spec
INVARIANT ListOK
CHECK_DEADLOCK FALSE
