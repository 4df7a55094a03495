SPECIFICATION Spec
CONSTANTS W = 2
INVARIANTS EntryOK BlockOK TailOK
CHECK_DEADLOCK FALSE
