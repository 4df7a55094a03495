SPECIFICATION Spec
CONSTANTS MaxStr = 7
 MaxN = 200
 MaxLs = 40
INVARIANTS Meaning OnlyLast4 CanonicalNames FaithfulFromBreak Total NeedsBuffer NoArgs Vast SizeTable
CHECK_DEADLOCK FALSE
