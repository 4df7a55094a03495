SPECIFICATION Spec
CONSTANTS MaxParts = 3
 MaxSize = 5
 MaxCalls = 5
 Lens = {0, 1, 2, 3, 5}
INVARIANTS Tiling CrcRight RejectRight ReadsBack CombineRight
CHECK_DEADLOCK FALSE
