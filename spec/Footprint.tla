------------------------------ MODULE Footprint ------------------------------
(***************************************************************************)
(* Which memory a call may touch.  A call sees some input Buffers and at    *)
(* most one output Buffer (possibly the same Buffer as its first input);    *)
(* it may also allocate blocks, which become (part of) its result.          *)
(* Positions are relative to the start of the Buffer; an interval <<lo,hi>> *)
(* stands for positions lo..hi-1 and is empty when lo >= hi.                *)
(*                                                                          *)
(* call: [fn, n (bytes of data), max (what maxSize says), rejected, insitu] *)
(***************************************************************************)
EXTENDS Integers
Into == {"encodeTo", "decodeTo", "decodeChunk"}               \* write into a supplied Buffer
Within(iv, lo, hi) == iv[1] >= iv[2] \/ (iv[1] >= lo /\ iv[2] <= hi)
Nothing(iv) == iv[1] >= iv[2]
(* how much of a supplied output may be written *)
Extent(call) == IF call.rejected \/ call.fn \notin Into THEN 0 ELSE IF call.fn = "encodeTo" THEN call.max ELSE call.n
(* An input of that size whose first byte is at an address that is `at` modulo Block.  Aligned vector loads may take in the rest of
   an aligned block that holds some byte of the input: such a block is never cut by the end of mapped memory. *)
Block == 64
MayRead(call, size, at, iv) == IF size = 0 THEN Nothing(iv) ELSE Within(iv, 0 - at, ((at + size + Block - 1) \div Block) * Block - at)
MayWriteInput(call, iv) == IF call.insitu THEN Within(iv, 0, Extent(call)) ELSE Nothing(iv)
MayReadOutput(call, iv) == Within(iv, 0, Extent(call))        \* only what it has written itself
MayWriteOutput(call, iv) == Within(iv, 0, Extent(call))
MayTouchBlock(size, iv) == Within(iv, 0, size)
=============================================================================
