------------------------------- MODULE Decoder -------------------------------
(***************************************************************************)
(* The yEnc decoder as a Mealy machine fed one byte at a time.  A state    *)
(* records the last characters seen that affect what comes next.           *)
(*   mode "plain": decode only                                             *)
(*   mode "raw"  : additionally undo NNTP dot-stuffing                     *)
(*   mode "chunk": as raw, and stop at the end of the data                 *)
(***************************************************************************)
EXTENDS YencBase

Modes  == {"plain", "raw", "chunk"}
DState == {"none", "eq", "cr", "crlf", "crlfdt", "crlfdtcr", "crlfeq"}
Ends   == {"no", "control", "article"}
StatesOf(mode) == CASE mode = "plain" -> {"none", "eq"}
                    [] mode = "raw"   -> {"none", "eq", "cr", "crlf"}
                    [] mode = "chunk" -> DState

(* The start of the data counts as the start of a line. *)
Start(mode) == IF mode = "plain" THEN "none" ELSE "crlf"

Go(out, st)   == [out |-> out, st |-> st, end |-> "no"]
Stop(st, end) == [out |-> <<>>, st |-> st, end |-> end]

(* A byte that follows nothing special. *)
Ordinary(mode, b) ==
    CASE b = EQ -> Go(<<>>, "eq")
      [] b = CR -> Go(<<>>, IF mode = "plain" THEN "none" ELSE "cr")
      [] b = LF -> Go(<<>>, "none")
      [] OTHER  -> Go(<<Unshift(b)>>, "none")

(* A byte that follows an escape character.  A CR remains a CR. *)
Escaped(mode, b) ==
    Go(<<EscUnshift(b)>>, IF b = CR /\ mode # "plain" THEN "cr" ELSE "none")

DecStep(mode, st, b) ==
    CASE st = "eq" -> Escaped(mode, b)
      [] st = "cr" /\ b = LF -> Go(<<>>, "crlf")
      [] st = "crlf" /\ b = DOT -> Go(<<>>, IF mode = "chunk" THEN "crlfdt" ELSE "none")
      [] st = "crlf" /\ b = EQ /\ mode = "chunk" -> Go(<<>>, "crlfeq")
      [] st = "crlfdt" /\ b = CR -> Go(<<>>, "crlfdtcr")
      [] st = "crlfdt" /\ b = EQ -> Go(<<>>, "crlfeq")
      [] st = "crlfdtcr" /\ b = LF -> Stop("crlf", "article")
      [] st = "crlfeq" /\ b = LOWY -> Stop("none", "control")
      [] st = "crlfeq" /\ b # LOWY -> Escaped(mode, b)
      [] OTHER -> Ordinary(mode, b)

(* Whole runs.  r: bytes consumed; o: output; st, end as above. *)
Run(mode, st0, s) ==
    FoldLeftDomain(
        LAMBDA a, i : IF a.end # "no" THEN a
                      ELSE LET t == DecStep(mode, a.st, s[i])
                           IN  [r |-> i, o |-> a.o \o t.out, st |-> t.st, end |-> t.end],
        [r |-> 0, o |-> <<>>, st |-> st0, end |-> "no"], s)

Decode(mode, s) == Run(mode, Start(mode), s).o

(* The same without building the output: `out` is compared as we go.  p = position
   reached in out, 0 once it has deviated. *)
RunAgainst(mode, st0, s, out) ==
    FoldLeftDomain(
        LAMBDA a, i : IF a.end # "no" \/ a.p = 0 THEN a
                      ELSE LET t == DecStep(mode, a.st, s[i]) IN
                           IF t.out = <<>> THEN [r |-> i, p |-> a.p, st |-> t.st, end |-> t.end]
                           ELSE IF a.p <= Len(out) /\ out[a.p] = t.out[1]
                                THEN [r |-> i, p |-> a.p + 1, st |-> t.st, end |-> t.end]
                                ELSE [r |-> i, p |-> 0, st |-> t.st, end |-> t.end],
        [r |-> 0, p |-> 1, st |-> st0, end |-> "no"], s)

IsDecodingOf(out, mode, s) == RunAgainst(mode, Start(mode), s, out).p = Len(out) + 1

-----------------------------------------------------------------------------
(* Independent, declarative account of where the data ends: the earliest position at which
   the stream, thought of as preceded by a line break, ends in one of the terminators. *)
Terminators == { CRLF \o <<EQ, LOWY>>, CRLF \o <<DOT, EQ, LOWY>>, CRLF \o <<DOT>> \o CRLF }
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
AtWithBreak(s, i) == IF i = -1 THEN CR ELSE IF i = 0 THEN LF ELSE s[i]      \* s as if preceded by CRLF
EndsAt(s, k) == \E t \in Terminators : k + 2 >= Len(t) /\ \A j \in 1..Len(t) : AtWithBreak(s, k - Len(t) + j) = t[j]
FirstEnd(s) == IF \E k \in 1..Len(s) : EndsAt(s, k)
               THEN CHOOSE k \in 1..Len(s) : EndsAt(s, k) /\ \A j \in 1..(k-1) : ~EndsAt(s, j)
               ELSE 0
KindAt(s, k) == IF s[k] = LOWY THEN "control" ELSE "article"

(* Declarative account of dot-unstuffing followed by plain decoding. *)
Unstuff(s) ==
    LET e == CRLF \o s
        keep(i) == ~(e[i] = DOT /\ e[i-1] = LF /\ e[i-2] = CR)
    IN  FoldLeftDomain(LAMBDA a, i : IF i > 2 /\ keep(i) THEN Append(a, e[i]) ELSE a, <<>>, e)

(* NNTP dot-stuffing by the sender. *)
Stuff(s) ==
    LET e == CRLF \o s
    IN  FoldLeftDomain(LAMBDA a, i : IF i <= 2 THEN a
                          ELSE IF e[i] = DOT /\ e[i-1] = LF /\ e[i-2] = CR THEN a \o <<DOT, DOT>>
                          ELSE Append(a, e[i]), <<>>, e)

-----------------------------------------------------------------------------
(* The strings by which the API names states and ends, as byte sequences. *)
StateStr(st) == CASE st = "none" -> <<>>
                  [] st = "eq" -> <<EQ>>
                  [] st = "cr" -> <<CR>>
                  [] st = "crlf" -> CRLF
                  [] st = "crlfdt" -> CRLF \o <<DOT>>
                  [] st = "crlfdtcr" -> CRLF \o <<DOT, CR>>
                  [] st = "crlfeq" -> CRLF \o <<EQ>>
EndStr(end) == CASE end = "control" -> CRLF \o <<EQ, LOWY>>
                 [] end = "article" -> CRLF \o <<DOT>> \o CRLF
(* What a caller's state string means: its longest meaningful suffix of at most 4 characters. *)
StrIsState(s) == \E st \in DState : StateStr(st) = s
Suffix(s, k)  == SubSeq(s, Len(s) - k + 1, Len(s))
StateOfStr(s0) ==
    LET s == IF Len(s0) > 4 THEN Suffix(s0, 4) ELSE s0
        t == IF s = CRLF \o <<DOT, EQ>> THEN CRLF \o <<EQ>> ELSE s
        k == CHOOSE k \in 0..Len(t) : StrIsState(Suffix(t, k)) /\ \A j \in (k+1)..Len(t) : ~StrIsState(Suffix(t, j))
    IN  CHOOSE st \in DState : StateStr(st) = Suffix(t, k)

(* Result of one decodeChunk call. *)
ReportedState(res) == IF res.end = "no" THEN StateStr(res.st) ELSE EndStr(res.end)
=============================================================================
