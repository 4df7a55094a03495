----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Judges recorded executions of encode/encodeTo/decode/decodeTo/          *)
(* decodeChunk against the specification.  One JSON record per execution.  *)
(* An execution that crashed or threw carries a field "failed".            *)
(***************************************************************************)
EXTENDS Encoder, Decoder, TLC, Json, IOUtils
LOCAL INSTANCE Transport
LOCAL D == INSTANCE Digits

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* a chunked decode: a behaviour of the client machine of MCStream.  Each call starts in the state that the string
   returned by the call before it denotes; results must be those of the machine. *)
CallOk(str, c) ==
    LET a == RunAgainst("chunk", StateOfStr(str), c.data, c.out) IN
    /\ a.p = Len(c.out) + 1
    /\ c.read = a.r /\ c.written = Len(c.out)
    /\ c.ended = (a.end # "no")
    /\ IF c.data = <<>> THEN StateOfStr(c.state) = StateOfStr(str) ELSE c.state = ReportedState(a)
StreamOk(e) ==
    LET n == Len(e.calls)
        prev(i) == IF i = 1 THEN e.start ELSE e.calls[i-1].state
    IN  /\ \A i \in 1..n : CallOk(prev(i), e.calls[i])
        /\ \A i \in 1..(n-1) : ~e.calls[i].ended

(* end detection: the whole history against the declarative account (only for streams started afresh) *)
EndOk(e) ==
    LET sent == FoldLeft(LAMBDA s, c : s \o c.data, <<>>, e.calls)
        got  == FoldLeft(LAMBDA s, c : s \o c.out, <<>>, e.calls)
        nread == FoldLeft(LAMBDA s, c : s + c.read, 0, e.calls)
        lastc == e.calls[Len(e.calls)]
        k    == FirstEnd(sent)
        body == IF k = 0 THEN sent
                ELSE LET t == CHOOSE t \in Terminators : k + 2 >= Len(t) /\ \A j \in 1..Len(t) : AtWithBreak(sent, k - Len(t) + j) = t[j]
                     IN  SubSeq(sent, 1, k - Len(t) + 2)      \* keeps the line break the terminator starts with, if any
    IN  /\ lastc.ended = (k # 0)
        /\ nread = (IF k = 0 THEN Len(sent) ELSE k)
        /\ k # 0 => lastc.state = EndStr(KindAt(sent, k))
        /\ IsDecodingOf(got, "raw", body)

(* A stretch of a long execution: the machine runs on from a given state, and its output must be what was written there.
   When the stretch reaches the end of the data (last), nothing more may have been written. *)
EncodeWindowOk(e) ==
    LET ls == LineSize(e.ls)  n == Len(e.data)
        fin == FoldLeftDomain(LAMBDA a, i : IF a.p = 0 THEN a ELSE
                   LET s == EncStep(ls, a.col, e.data[i], e.last /\ i = n)
                   IN  IF At(e.out, a.p, s.out) THEN [p |-> a.p + Len(s.out), col |-> s.col] ELSE [p |-> 0, col |-> 0],
                 [p |-> 1, col |-> e.col], e.data)
    IN  fin.p = Len(e.out) + 1
DecodeWindowOk(e) == RunAgainst(e.mode, StateOfStr(e.st), e.data, e.out).p = Len(e.out) + 1

(* line sizes and columns as decimal digits (none: infinite); beyond the largest int they count as that *)
Clamped(d) == IF d = <<>> \/ ~D!Leq(d, D!Dec(2147483647)) THEN 2147483647 ELSE FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "encode"    -> IsEncodingOf(e.out, e.data, e.ls, e.col)
      [] e.op = "encodeVast" -> IsEncodingOf(e.out, e.data, Clamped(e.ls), Clamped(e.col))
      [] e.op = "encodeWindow" -> EncodeWindowOk(e)
      [] e.op = "decodeWindow" -> DecodeWindowOk(e)
      [] e.op = "decode"    -> IsDecodingOf(e.out, e.mode, e.data)
      [] e.op = "transport" -> e.data # <<>> => e.out # <<>> /\ IsTransportSafe(e.out, e.ls, e.col)
      [] e.op = "roundtrip" -> e.back = e.data
      [] e.op = "stuffing"  -> Stuff(e.enc) = (IF e.enc[1] = DOT THEN <<DOT>> ELSE <<>>) \o e.enc
      [] e.op = "stream"    -> StreamOk(e)
      [] e.op = "end"       -> StreamOk(e) /\ EndOk(e)

Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
