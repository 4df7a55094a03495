SPECIFICATION Spec
CONSTANTS W = 3
INVARIANTS EntryOK BlockOK TailOK
CHECK_DEADLOCK FALSE
