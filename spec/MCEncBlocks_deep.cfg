SPECIFICATION Spec
CONSTANTS W = 5
 MaxLs = 14
INVARIANTS EntryOK BlockOK TailOK
CHECK_DEADLOCK FALSE
