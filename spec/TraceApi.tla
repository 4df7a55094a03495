------------------------------ MODULE TraceApi ------------------------------
(* Judges recorded calls as calls: which forms are accepted, what is returned, what is left alone. *)
EXTENDS Decoder, Sizes, TLC, Json, IOUtils
LOCAL G == INSTANCE Gate
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* decodeChunk.  args: "null" / "undef" / "absent" or a string for the state; the output Buffer as it was before, or absent. *)
StateArg(e) == IF e.stateKind = "string" THEN e.state ELSE CRLF
ChunkOk(e) ==
    LET n == Len(e.data)  given == e.hasOut
        a == RunAgainst("chunk", StateOfStr(StateArg(e)), e.data, e.out)
    IN  IF given /\ e.outLen < n THEN e.threw /\ e.untouched
        ELSE /\ ~e.threw
             /\ a.p = Len(e.out) + 1 /\ e.written = Len(e.out) /\ e.read = a.r
             /\ e.ended = (a.end # "no")
             /\ IF n = 0 THEN StateOfStr(e.newState) = StateOfStr(StateArg(e)) ELSE e.newState = ReportedState(a)
             /\ e.types                                             \* the members of the result have the documented types
             /\ given => e.sameOut /\ e.tail                        \* returned by reference; bytes from the length of the data on untouched
             /\ ~given => e.outLen = e.written

(* minSize / maxSize values *)
MinOk(e) == e.out = MinSize(e.n, e.ls)
MaxOk(e) == IF e.bad THEN e.threw \/ e.n = <<0>> ELSE ~e.threw /\ e.out = MaxSize(e.n, e.ls, e.num, e.den, e.pad) /\ e.pad >= 2
(* the size of an actual encoding *)
SizeOk(e) == /\ Leq(e.len, Bound(e.n, e.ls)) /\ Leq(e.len, e.max)
             /\ e.col = 0 => Leq(e.min, e.len)
             /\ e.col = 0 /\ e.plain => e.len = e.min
(* huge inputs: how much was reported read/written for data that encodes or decodes to a known length *)
HugeOk(e) == ~e.threw /\ e.got = e.expected
GateOk(e) == LET v == G!Verdict(e.fn, e.args, e.max) IN
             /\ v = "ok" => ~e.threw /\ e.right
             /\ v = "error" => e.threw /\ e.untouched
             /\ e.errorType /\ e.probe                              \* only Errors are thrown, and later calls are unaffected

Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "chunk"   -> ChunkOk(e)
      [] e.op = "minSize" -> MinOk(e)
      [] e.op = "maxSize" -> MaxOk(e)
      [] e.op = "size"    -> SizeOk(e)
      [] e.op = "huge"    -> HugeOk(e)
      [] e.op = "gate"    -> GateOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
