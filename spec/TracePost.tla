------------------------------ MODULE TracePost ------------------------------
(* Judges recorded calls of post and histories of multi_post. *)
EXTENDS CrcTable, TLC, Json, IOUtils
Tab == CRC_Tab
CrcOfBytes(s) == CRC_Update(Tab, CRC_Zero, s)
LOCAL A == INSTANCE Article WITH CrcOf <- CrcOfBytes, CrcJoin <- CRC_JoinDec, CrcText <- CRC_Text
Trace == ndJsonDeserialize(IOEnv.TRACE)

PostOk(e) == A!IsArticle(e.out, A!SingleHead(e.enc, e.name, e.ls, A!N(Len(e.data))), e.data, e.ls, A!SingleFoot(A!Dec(Len(e.data)), CrcOfBytes(e.data)))

(* a history: each call as the machine says, the visible state after every call that of the machine.
   A call records either its data, or (for data too long to record) its length, CRC and whether its body was compared. *)
LenOf(c) == IF "data" \in DOMAIN c THEN A!Dec(Len(c.data)) ELSE c.len    \* digits
CrcOfCall(c) == IF "data" \in DOMAIN c THEN CrcOfBytes(c.data) ELSE c.dcrc
Visible(st, c) == c.part = st.part /\ c.pos = st.pos /\ c.crc = st.crc
CallOk(e, st, c, dc) ==
    LET n == LenOf(c)  v == A!Verdict(e, st, n) IN
    IF "starved" \in DOMAIN c /\ ~c.ok THEN Visible(A!Starved(st), c) ELSE      \* made when there is not enough memory
    /\ c.ok = (v = "ok")
    /\ Visible(A!After(e, st, n, dc), c)
    /\ c.ok => LET h == A!HeadFor(e.enc, e.name, e, st, n)  f == A!FootFor(e, st, n, dc)
               IN  IF "data" \in DOMAIN c THEN A!IsArticle(c.out, h, c.data, e.ls, f)
                   ELSE c.body /\ c.head = h /\ c.foot = f
MultiOk(e) ==
    FoldLeft(LAMBDA a, c : IF ~a.ok THEN a
                           ELSE LET dc == CrcOfCall(c) IN [ok |-> CallOk(e, a.st, c, dc), st |-> IF "starved" \in DOMAIN c /\ ~c.ok THEN A!Starved(a.st) ELSE A!After(e, a.st, LenOf(c), dc)],
             [ok |-> Visible(A!Start0(CRC_Zero), e.start), st |-> A!Start0(CRC_Zero)], e.calls).ok

(* one call of a long history, from the state the reference was in *)
StepOk(e) == CallOk(e, e.st, e.call, CrcOfCall(e.call))

(* the parsed parts of a whole file: they tile it, and their CRCs combine to that of the file, which the last one carries *)
FileOk(e) ==
    LET r == FoldLeft(LAMBDA a, p :
                [ok |-> a.ok /\ p.begin = A!Text(A!Dec(a.n + 1)) /\ p.end = A!Text(A!Dec(a.n + Len(p.data)))
                             /\ p.data = SubSeq(e.file, a.n + 1, a.n + Len(p.data)) /\ p.pcrc = CRC_Text(CrcOfBytes(p.data)),
                 n |-> a.n + Len(p.data), crc |-> CRC_Join(a.crc, CrcOfBytes(p.data), Len(p.data))],
                [ok |-> TRUE, n |-> 0, crc |-> CRC_Zero], e.parts)
    IN  r.ok /\ r.n = Len(e.file) /\ r.crc = CrcOfBytes(e.file) /\ e.combined = r.crc
        /\ \A i \in 1..Len(e.parts) : e.parts[i].crc = (IF i = Len(e.parts) THEN CRC_Text(r.crc) ELSE <<>>)

Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "post"  -> PostOk(e)
      [] e.op = "multi" -> MultiOk(e)
      [] e.op = "step"  -> StepOk(e)
      [] e.op = "file"  -> FileOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
