SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxChunk = 2
INVARIANTS ChunkInvariant EndExact OutputExact Canonical Alias Unstuffing StuffUnstuff
CHECK_DEADLOCK FALSE
