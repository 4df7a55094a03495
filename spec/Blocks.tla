------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* How the vectorised decoders work: data is taken in blocks of W bytes    *)
(* with a few bytes of lookahead; of all that went before, only two facts  *)
(* are carried from block to block: whether the first byte of the block is *)
(* escaped (esc), and whether its first or second byte is a dot that opens *)
(* a line (nm = 1 or 2).  The specification's machine (Decoder) keeps more *)
(* state than that; Rel says why it is enough.  A call is: bytes up to an  *)
(* alignment boundary one at a time, Entry, blocks while enough bytes for  *)
(* the lookahead remain or the end of data comes into view, Recover, and   *)
(* the remaining bytes one at a time.                                      *)
(* `bug` names a design with one thing left out, which must NOT satisfy    *)
(* the obligations; the inputs on which it fails are replayed into the     *)
(* real decoders (GenBlocks).                                              *)
(***************************************************************************)
EXTENDS Decoder

Bugs == {"noEscCarry", "naiveRuns", "noNext1", "noNext2", "noEnd", "noEndDot", "noEndArticle", "endNoCr", "endBlockOnly",
         "entryNoDot", "entryNoCr", "entryNoDt", "entryNoDtCr", "entryNoEq", "entryCrNoEnd", "recoverNone", "recoverCr",
         "shortTail", "escKept", "dotAnywhere", "escapedGone", "endKeepsNone"}

(* How many bytes must at least remain after the blocks: in chunk mode three would decode alike, but the
   search for the end looks four bytes ahead (and Footprint requires that nothing beyond the data is read). *)
Remain(mode, bug) ==
    CASE mode = "plain" -> 0
      [] mode = "raw"   -> IF bug = "shortTail" THEN 1 ELSE 2
      [] mode = "chunk" -> IF bug = "shortTail" THEN 2 ELSE 4

Carry(esc, nm) == [esc |-> esc, nm |-> nm]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Matches(s, i, t) == \A j \in 1..Len(t) : At(s, i + j - 1) = t[j]

(* What is carried into the first block: either that, or the data ends right here. *)
Entry(mode, st, s, bug) ==
    LET raw == mode # "plain"  search == mode = "chunk"
        more(nm) == [end |-> "no", c |-> Carry((st = "eq" \/ (st = "crlfeq" /\ bug # "entryNoEq")), nm)]
        stop(n, end) == [end |-> end, n |-> n]
    IN CASE st = "crlf" /\ raw /\ At(s, 1) = DOT ->
              IF search /\ Matches(s, 2, CRLF) THEN stop(3, "article")
              ELSE IF search /\ Matches(s, 2, <<EQ, LOWY>>) THEN stop(3, "control")
              ELSE more(IF bug = "entryNoDot" THEN 0 ELSE 1)
         [] st = "crlf" /\ search /\ Matches(s, 1, <<EQ, LOWY>>) -> stop(2, "control")
         [] st = "cr" /\ raw /\ Matches(s, 1, <<LF, DOT>>) /\ bug # "entryNoCr" ->
              IF search /\ Matches(s, 3, CRLF) THEN stop(4, "article")
              ELSE IF search /\ Matches(s, 3, <<EQ, LOWY>>) THEN stop(4, "control")
              ELSE more(2)
         [] st = "cr" /\ search /\ Matches(s, 1, <<LF, EQ, LOWY>>) /\ bug # "entryCrNoEnd" -> stop(3, "control")
         [] st = "crlfdt" /\ search /\ Matches(s, 1, CRLF) /\ bug # "entryNoDt" -> stop(2, "article")
         [] st = "crlfdt" /\ search /\ Matches(s, 1, <<EQ, LOWY>>) /\ bug # "entryNoDt" -> stop(2, "control")
         [] st = "crlfdtcr" /\ search /\ At(s, 1) = LF /\ bug # "entryNoDtCr" -> stop(1, "article")
         [] st = "crlfeq" /\ search /\ At(s, 1) = LOWY /\ bug # "entryNoEq" -> stop(1, "control")
         [] OTHER -> more(0)

(* Is the end of data in view: a terminator whose line break starts inside the block? *)
InView(mode, s, W, bug) ==
    /\ mode = "chunk" /\ bug # "noEnd"
    /\ \E i \in 1..W :
         /\ (s[i] = CR \/ bug = "endNoCr") /\ At(s, i + 1) = LF
         /\ \/ Matches(s, i + 2, <<EQ, LOWY>>) /\ (bug = "endBlockOnly" => i + 3 <= W)
            \/ Matches(s, i + 2, <<DOT, EQ, LOWY>>) /\ bug # "noEndDot"
            \/ Matches(s, i + 2, <<DOT>> \o CRLF) /\ bug # "noEndArticle"

(* The escaped positions of a block: every second one of a run of escape characters,
   starting from the one carried in. *)
EscapedIn(c, s, W, bug) ==
    LET e == FoldLeftDomain(LAMBDA a, i : Append(a, s[i] = EQ /\ (~a[i] \/ bug = "naiveRuns")),
                            <<c.esc>>, SubSeq(s, 1, W))      \* e[i]: position i is escaped; e[W+1]: carried out
    IN  e

(* One block: what is stored, and what is carried out.  s: the block and at least two bytes more. *)
Block(mode, c, s, W, bug) ==
    LET raw == mode # "plain"
        e == EscapedIn(c, s, W, bug)
        dot(i) == /\ raw /\ At(s, i) = DOT       \* a dot that opens a line
                  /\ CASE i = 1 -> c.nm = 1 [] i = 2 -> c.nm = 2
                       [] OTHER -> (bug = "dotAnywhere" \/ s[i-2] = CR) /\ s[i-1] = LF
        gone(i) == IF e[i] THEN bug = "escapedGone" /\ s[i] \in {CR, LF, EQ} ELSE s[i] \in {CR, LF, EQ} \/ dot(i)
        \* the first two positions of the next block are judged from here; with W = 1 the second belongs to a later block
        nm == CASE ~raw -> 0
                [] At(s, W - 1) = CR /\ s[W] = LF /\ At(s, W + 1) = DOT -> IF bug = "noNext1" THEN 0 ELSE 1
                [] s[W] = CR /\ At(s, W + 1) = LF /\ At(s, W + 2) = DOT -> IF bug = "noNext2" THEN 0 ELSE 2
                [] OTHER -> 0
    IN  [ o |-> FoldLeftDomain(LAMBDA a, i : IF gone(i) THEN a ELSE Append(a, IF e[i] THEN EscUnshift(s[i]) ELSE Unshift(s[i])), <<>>, SubSeq(s, 1, W)),
          c |-> Carry(IF bug = "noEscCarry" THEN FALSE ELSE IF bug = "escKept" THEN e[W + 1] \/ c.esc ELSE e[W + 1], nm) ]

(* The state from which the remaining bytes are decoded one at a time. *)
Recover(c, bug) == CASE bug = "recoverNone" -> "none"
                     [] c.esc -> "eq"
                     [] c.nm = 1 -> "crlf"
                     [] c.nm = 2 -> IF bug = "recoverCr" THEN "none" ELSE "cr"
                     [] OTHER -> "none"
(* ... when a block is given up because the end is in view *)
RecoverEnd(c, bug) == IF bug = "endKeepsNone" THEN "none" ELSE Recover(c, bug)

-----------------------------------------------------------------------------
(* Two states no continuation of s tells apart, given that s is at least so long. *)
SameRun(a, b) == a.o = b.o /\ a.end = b.end /\ a.st = b.st /\ a.r = b.r

(* Why the carried facts suffice.  st: the specification's state; s: what follows. *)
Pending(st, s) ==          \* a terminator is under way whose line break is already behind
    CASE st = "cr"       -> \E t \in {<<LF, EQ, LOWY>>, <<LF, DOT, EQ, LOWY>>, <<LF, DOT>> \o CRLF} : Matches(s, 1, t)
      [] st = "crlf"     -> \E t \in {<<EQ, LOWY>>, <<DOT, EQ, LOWY>>, <<DOT>> \o CRLF} : Matches(s, 1, t)
      [] st = "crlfdt"   -> \E t \in {<<EQ, LOWY>>, CRLF} : Matches(s, 1, t)
      [] st = "crlfdtcr" -> At(s, 1) = LF
      [] st = "crlfeq"   -> At(s, 1) = LOWY
      [] OTHER -> FALSE
Rel(mode, c, st, s) ==
    /\ c.esc = (st \in {"eq", "crlfeq"})
    /\ c.nm = CASE mode = "plain" -> 0
                [] st = "crlf" /\ At(s, 1) = DOT -> 1
                [] st \in {"cr", "crlfdtcr"} /\ At(s, 1) = LF /\ At(s, 2) = DOT -> 2
                [] OTHER -> 0
    /\ mode = "chunk" => ~Pending(st, s)

(* The carried facts that go with a state and what follows it. *)
CarryOf(mode, st, s) == CHOOSE c \in [esc : BOOLEAN, nm : 0..2] :
    /\ c.esc = (st \in {"eq", "crlfeq"})
    /\ c.nm = CASE mode = "plain" -> 0
                [] st = "crlf" /\ At(s, 1) = DOT -> 1
                [] st \in {"cr", "crlfdtcr"} /\ At(s, 1) = LF /\ At(s, 2) = DOT -> 2
                [] OTHER -> 0
Related(mode, st, s) == Rel(mode, CarryOf(mode, st, s), st, s)

(* The obligations, for blocks of W bytes. *)
EntryObligation(mode, st, s, bug) ==
    Len(s) >= 4 =>
    LET e == Entry(mode, st, s, bug)
        r == Run(mode, st, s)
    IN  IF e.end = "no" THEN Rel(mode, e.c, st, s)
        ELSE r.end = e.end /\ r.r = e.n /\ r.o = <<>>

BlockObligation(W, mode, st, s, bug) ==
    Len(s) = W + 4 /\ Related(mode, st, s) =>
    LET c == CarryOf(mode, st, s) IN
    IF InView(mode, s, W, bug)
    THEN LET r == Run(mode, st, s) IN r.end # "no" /\ SameRun(Run(mode, RecoverEnd(c, bug), s), r)
    ELSE LET r == Run(mode, st, SubSeq(s, 1, W))
             b == Block(mode, c, s, W, bug)
         IN  r.end = "no" /\ b.o = r.o /\ Rel(mode, b.c, r.st, SubSeq(s, W + 1, W + 4))

TailObligation(mode, st, s, bug) ==
    Len(s) >= Remain(mode, bug) /\ Related(mode, st, s) =>
    SameRun(Run(mode, Recover(CarryOf(mode, st, s), bug), s), Run(mode, st, s))

Obligations(W, mode, st, s, bug) ==
    EntryObligation(mode, st, s, bug) /\ BlockObligation(W, mode, st, s, bug) /\ TailObligation(mode, st, s, bug)

(* An input that shows, for blocks of 3 bytes, what goes wrong without each part of the design. *)
Case(mode, st, s) == [mode |-> mode, st |-> st, s |-> s]
Witness(bug) ==
    CASE bug = "noEscCarry"   -> Case("raw", "none", <<65, 65, EQ, 65, 65, 65, 65>>)
      [] bug = "naiveRuns"    -> Case("raw", "none", <<65, EQ, EQ, 65, 65, 65, 65>>)
      [] bug = "noNext1"      -> Case("raw", "none", <<65, CR, LF, DOT, 65, 65, 65>>)
      [] bug = "noNext2"      -> Case("raw", "none", <<65, 65, CR, LF, DOT, 65, 65>>)
      [] bug = "noEnd"        -> Case("chunk", "none", <<65, 65, CR, LF, EQ, LOWY, 65>>)
      [] bug = "noEndDot"     -> Case("chunk", "none", <<65, 65, CR, LF, DOT, EQ, LOWY>>)
      [] bug = "noEndArticle" -> Case("chunk", "none", <<65, 65, CR, LF, DOT, CR, LF>>)
      [] bug = "endNoCr"      -> Case("chunk", "none", <<65, 65, 65, LF, DOT, CR, LF>>)
      [] bug = "endBlockOnly" -> Case("chunk", "none", <<65, CR, LF, EQ, LOWY, 65, 65>>)
      [] bug = "entryNoDot"   -> Case("raw", "crlf", <<DOT, 65, 65, 65>>)
      [] bug = "entryNoCr"    -> Case("raw", "cr", <<LF, DOT, 65, 65>>)
      [] bug = "entryNoDt"    -> Case("chunk", "crlfdt", <<CR, LF, 65, 65>>)
      [] bug = "entryNoDtCr"  -> Case("chunk", "crlfdtcr", <<LF, 65, 65, 65>>)
      [] bug = "entryNoEq"    -> Case("chunk", "crlfeq", <<LOWY, 65, 65, 65>>)
      [] bug = "entryCrNoEnd" -> Case("chunk", "cr", <<LF, EQ, LOWY, 65>>)
      [] bug = "recoverNone"  -> Case("plain", "eq", <<65>>)
      [] bug = "recoverCr"    -> Case("raw", "cr", <<LF, DOT, 65>>)
      [] bug = "shortTail"    -> Case("raw", "cr", <<LF>>)
      [] bug = "escKept"      -> Case("raw", "eq", <<65, 65, 65, 65, 65, 65, 65>>)
      [] bug = "dotAnywhere"  -> Case("raw", "none", <<65, LF, DOT, 65, 65, 65, 65>>)
      [] bug = "escapedGone"  -> Case("raw", "none", <<65, EQ, LF, 65, 65, 65, 65>>)
      [] bug = "endKeepsNone" -> Case("chunk", "eq", <<65, 65, CR, LF, DOT, CR, LF>>)
NeedsEveryPart == \A b \in Bugs : LET w == Witness(b) IN
    Obligations(3, w.mode, w.st, w.s, "none") /\ ~Obligations(3, w.mode, w.st, w.s, b)
=============================================================================
