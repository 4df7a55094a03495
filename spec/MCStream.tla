------------------------------- MODULE MCStream -------------------------------
(***************************************************************************)
(* A client that decodes a stream through decodeChunk.  All it keeps       *)
(* between calls is the state *string* returned to it; the service derives *)
(* the machine state from that string.  Chunks are arbitrary, also empty.  *)
(***************************************************************************)
EXTENDS Decoder, TLC
CONSTANTS MaxLen, MaxChunk
Alpha == {CR, LF, DOT, EQ, LOWY, 65}

VARIABLES sent,    \* every byte handed to decodeChunk so far, in order
          str,     \* state string the client holds
          out,     \* concatenated output
          nread,   \* total of `read`
          ended    \* "no" / "control" / "article"
vars == <<sent, str, out, nread, ended>>

Init == sent = <<>> /\ str = CRLF /\ out = <<>> /\ nread = 0 /\ ended = "no"
Chunks == UNION { [1..k -> Alpha] : k \in 0..MaxChunk }
Call(c) ==
    /\ ended = "no" /\ Len(sent) + Len(c) <= MaxLen
    /\ LET r == Run("chunk", StateOfStr(str), c) IN
       /\ sent' = sent \o c
       /\ out' = out \o r.o /\ nread' = nread + r.r /\ ended' = r.end
       /\ str' = ReportedState(r)
Next == \E c \in Chunks : Call(c)
Spec == Init /\ [][Next]_vars

(* C05: the same as one call on everything *)
Whole == Run("chunk", "crlf", sent)
ChunkInvariant == out = Whole.o /\ nread = Whole.r /\ ended = Whole.end /\ str = ReportedState(Whole)
(* C06: ends exactly at the first terminator, consumed entirely, with nothing after it *)
EndExact == LET k == FirstEnd(sent) IN
            IF k = 0 THEN ended = "no" /\ nread = Len(sent)
            ELSE ended = KindAt(sent, k) /\ nread = k
(* the output is that of the data before the terminator, under either account of dot-unstuffing *)
BodyLen == LET k == FirstEnd(sent) IN
           IF k = 0 THEN Len(sent)
           ELSE CHOOSE j \in 0..k : \E t \in Terminators : EndsWith(CRLF \o SubSeq(sent, 1, k), t) /\ j = k - Len(t) + 2
OutputExact == LET body == SubSeq(sent, 1, BodyLen) IN
               /\ out = Decode("raw", body)
               /\ out = Decode("plain", Unstuff(body))
(* C07: state strings are canonical: interpreting and naming are inverse; an alias means the same *)
Canonical == ended = "no" => StateStr(StateOfStr(str)) = str
Alias == StateOfStr(CRLF \o <<DOT, EQ>>) = "crlfeq"
(* C04: dot-unstuffing and decoding commute as described, and decoding never grows *)
Unstuffing == Decode("raw", sent) = Decode("plain", Unstuff(sent)) /\ Len(Decode("plain", sent)) <= Len(sent)
StuffUnstuff == Unstuff(Stuff(sent)) = sent
=============================================================================
