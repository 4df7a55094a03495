SPECIFICATION Spec
CONSTANTS MaxParts = 4
 MaxSize = 8
 MaxCalls = 7
 Lens = {0, 1, 2, 3, 5, 8}
INVARIANTS Tiling CrcRight RejectRight ReadsBack CombineRight
CHECK_DEADLOCK FALSE
