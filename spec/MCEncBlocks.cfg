SPECIFICATION Spec
CONSTANTS W = 3
 MaxLs = 9
INVARIANTS EntryOK BlockOK TailOK
CHECK_DEADLOCK FALSE
