SPECIFICATION Spec
CONSTANT MaxPieces = 5
INVARIANTS Total NoStart Placed EndNeeded Prefix
CHECK_DEADLOCK FALSE
