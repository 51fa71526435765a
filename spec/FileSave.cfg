CONSTANTS
 Variant = "ok"
 Rounds = 3
 Size = 4
 BufSize = 2
SPECIFICATION Fair
INVARIANT AlwaysWhole Answers NothingBuffered
PROPERTY Ends
CHECK_DEADLOCK FALSE
