CONSTANTS
 Variant = "code"
 Universe = "dom"
SPECIFICATION Spec
INVARIANT SameLinks SameAnswers SameLists SameReplies
CHECK_DEADLOCK FALSE
