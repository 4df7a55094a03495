SPECIFICATION Spec
CONSTANTS MaxStr = 5
 MaxN = 40
 MaxLs = 12
INVARIANTS Meaning OnlyLast4 CanonicalNames FaithfulFromBreak Total NeedsBuffer NoArgs Vast SizeTable
CHECK_DEADLOCK FALSE
