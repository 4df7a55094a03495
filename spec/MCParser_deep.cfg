SPECIFICATION Spec
CONSTANT MaxPieces = 7
INVARIANTS Total NoStart Placed EndNeeded Prefix
CHECK_DEADLOCK FALSE
