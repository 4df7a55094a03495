------------------------------ MODULE EncBlocks ------------------------------
(***************************************************************************)
(* How the vectorised encoders work: a block of W bytes is encoded as if   *)
(* it were all in the middle of a line (only its first byte may be the     *)
(* first of a line), and if that reaches the last column, what is too much *)
(* is taken back: down to the last column, or one further where that would *)
(* split an escape sequence.  The byte that lands in the last column is    *)
(* then written on its own, and the line break right after it - earlier    *)
(* than the specification's machine (Encoder), which writes a break only   *)
(* before a byte.  That is sound because blocks always leave bytes over.   *)
(* A call is: Entry, blocks while enough bytes remain, the remaining bytes *)
(* one at a time (Scalar), and Finish.                                     *)
(* `bug` names a design with one thing left out (see Blocks).              *)
(***************************************************************************)
EXTENDS Encoder

EncBugs == {"firstDot", "firstBlank", "firstInSecond", "lastBlank", "lastDot", "splitPair", "cutLate", "cutEarly", "takeBackAll",
            "entryLast", "entryFull", "entryFirst", "noRemainder", "finishBlank", "finishAgain", "scalarLastDot", "scalarBreakCol", "scalarFullByte"}

MidCh(b, bug)   == Unit(b, FALSE, FALSE, FALSE)
FirstCh(b, bug) == IF (bug = "firstDot" /\ Shift(b) = DOT) \/ (bug = "firstBlank" /\ Shift(b) \in Blank) THEN <<Shift(b)>> ELSE Unit(b, TRUE, FALSE, FALSE)
LastCh(b, bug)  == IF bug = "lastBlank" /\ Shift(b) \in Blank THEN <<Shift(b)>> ELSE Unit(b, bug = "lastDot", TRUE, FALSE)

(* A place in the output: what has been written, the column, how many bytes have been consumed.
   Where a line break has been written, the column is 0. *)
Place(out, col, n) == [out |-> out, col |-> col, n |-> n]

Entry(ls, col, s, bug) ==
    LET a == CASE col = ls - 1 /\ bug # "entryLast" -> Place(LastCh(s[1], bug) \o CRLF, 0, 1)
               [] col >= ls /\ bug # "entryFull" -> LET u == FirstCh(s[1], bug) IN Place(CRLF \o u, Len(u), 1)
               [] OTHER -> Place(<<>>, col, 0)
    IN  IF a.col = 0 /\ bug # "entryFirst"
        THEN LET u == FirstCh(s[a.n + 1], bug) IN Place(a.out \o u, Len(u), a.n + 1)
        ELSE a

(* One block from a column below the last; s: W bytes and one more. *)
Block(ls, W, col, s, bug) ==
    LET unit(i) == IF col = 0 /\ (i = 1 \/ (i = 2 /\ bug = "firstInSecond")) THEN FirstCh(s[i], bug) ELSE MidCh(s[i], bug)
        \* after[k + 1]: the column after k bytes
        after == FoldLeftDomain(LAMBDA a, i : Append(a, a[i] + Len(unit(i))), <<col>>, SubSeq(s, 1, W))
        outOf(k) == FoldLeftDomain(LAMBDA a, i : a \o unit(i), <<>>, SubSeq(s, 1, k))
        edge == CASE bug = "cutLate" -> ls [] bug = "cutEarly" -> ls - 2 [] OTHER -> ls - 1
    IN  IF after[W + 1] < edge THEN Place(outOf(W), after[W + 1], W)
        ELSE LET k == CHOOSE k \in 0..W : after[k + 1] <= edge /\ (k = W \/ after[k + 2] > edge)
                 \* taken back: in the middle of an escape sequence, all of it goes
                 kept == IF bug = "splitPair" /\ after[k + 1] < edge THEN outOf(k) \o <<EQ>>
                         ELSE IF bug = "takeBackAll" /\ k > 0 THEN outOf(k - 1) ELSE outOf(k)
             IN  Place(kept \o LastCh(s[k + 1], bug) \o CRLF, 0, k + 1)

(* The remaining bytes, from a column that may be anything, as a function of how far. *)
RECURSIVE Scalar(_, _, _, _, _)
Scalar(ls, col, s, out, bug) ==
    IF s = <<>> THEN Place(out, col, 0)
    ELSE LET c == s[1]  rest == SubSeq(s, 2, Len(s)) IN
         IF col = 0 THEN LET u == FirstCh(c, bug) IN Scalar(ls, Len(u), rest, out \o u, bug)
         ELSE IF col < ls - 1 THEN LET u == MidCh(c, bug) IN Scalar(ls, col + Len(u), rest, out \o u, bug)
         ELSE LET u  == Unit(c, bug = "scalarLastDot", TRUE, FALSE)
                  o2 == IF col < ls THEN out \o u ELSE out
                  r2 == IF col < ls \/ bug = "scalarFullByte" THEN rest ELSE s
              IN  IF r2 = <<>> THEN Place(o2, col, 0)
                  ELSE LET f == FirstCh(r2[1], bug)
                       IN  Scalar(ls, Len(f) + (IF bug = "scalarBreakCol" THEN 1 ELSE 0), SubSeq(r2, 2, Len(r2)), o2 \o CRLF \o f, bug)

(* A blank at the very end is escaped. *)
Finish(out, bug) == LET n == Len(out) IN
    IF n > 0 /\ bug # "finishBlank" /\ (out[n] \in Blank \/ (bug = "finishAgain" /\ n > 1 /\ out[n-1] = EQ))
    THEN SubSeq(out, 1, n - 1) \o <<EQ, out[n] + 64>> ELSE out

-----------------------------------------------------------------------------
(* What the specification's machine has after s, before any end. *)
SpecRun(ls, col, s) == FoldLeft(LAMBDA a, b : LET t == EncStep(ls, a.col, b, FALSE) IN [out |-> a.out \o t.out, col |-> t.col], [out |-> <<>>, col |-> col], s)

(* The two agree: the same output, but for a line break that the one has written already. *)
Agrees(ls, p, r) == \/ p.out = r.out /\ p.col = r.col /\ p.col # 0
                    \/ p.out = r.out \o CRLF /\ p.col = 0 /\ r.col >= ls
                    \/ p.n = 0 /\ p.out = <<>> /\ r.out = <<>> /\ (p.col = r.col)

EntryObligation(ls, col, s, bug) ==
    Len(s) >= 2 =>
    LET p == Entry(ls, col, s, bug) IN
    Agrees(ls, p, SpecRun(ls, col, SubSeq(s, 1, p.n))) /\ p.col > 0 /\ p.col < ls - 1

(* From column 0 after a line break, or from a column between; at least one byte must be left over,
   else the break would end the data. *)
BlockObligation(ls, W, col, s, bug) ==
    col < ls - 1 /\ Len(s) = W + (IF bug = "noRemainder" THEN 1 ELSE 2) =>
    LET p == Block(ls, W, col, SubSeq(s, 1, W + 1), bug) IN
    /\ p.n > 0 /\ Agrees(ls, p, SpecRun(ls, col, SubSeq(s, 1, p.n))) /\ (p.col < ls - 1)
    /\ p.n < Len(s)

(* The remaining bytes (after a line break already written, or not) and the end. *)
TailObligation(ls, col, s, bug) ==
    s # <<>> =>
    LET p == Scalar(ls, col, s, <<>>, bug)
        r == SpecRun(ls, col, s)
        e == SpecRun(ls, col, SubSeq(s, 1, Len(s) - 1))
        fin == EncStep(ls, e.col, s[Len(s)], TRUE)
    IN  /\ p.out = r.out
        /\ Finish(p.out, bug) = e.out \o fin.out

Obligations(ls, W, col, s, bug) ==
    EntryObligation(ls, col, s, bug) /\ BlockObligation(ls, W, col, s, bug) /\ TailObligation(ls, col, s, bug)

(* What goes wrong without each part of the design, with blocks of 3 bytes on lines of 4. *)
Case(col, s) == [col |-> col, s |-> s]
Witness(bug) ==
    CASE bug = "firstDot"       -> Case(0, <<4>>)
      [] bug = "firstBlank"     -> Case(0, <<223>>)
      [] bug = "firstInSecond"  -> Case(0, <<79, 4, 79, 79, 79>>)
      [] bug = "lastBlank"      -> Case(3, <<223, 79>>)
      [] bug = "lastDot"        -> Case(3, <<4, 79>>)
      [] bug = "splitPair"      -> Case(0, <<227, 227, 79, 79, 79>>)
      [] bug = "cutLate"        -> Case(0, <<79, 79, 79, 79, 79>>)
      [] bug = "cutEarly"       -> Case(0, <<79, 79, 79, 79, 79>>)
      [] bug = "takeBackAll"    -> Case(0, <<79, 79, 79, 79, 79>>)
      [] bug = "entryLast"      -> Case(3, <<79, 79>>)
      [] bug = "entryFull"      -> Case(4, <<79, 79>>)
      [] bug = "entryFirst"     -> Case(0, <<4, 79>>)
      [] bug = "noRemainder"    -> Case(0, <<79, 79, 79, 79>>)
      [] bug = "finishBlank"    -> Case(1, <<223>>)
      [] bug = "finishAgain"    -> Case(0, <<4>>)
      [] bug = "scalarLastDot"  -> Case(3, <<4>>)
      [] bug = "scalarBreakCol" -> Case(4, <<79, 79, 223, 79>>)
      [] bug = "scalarFullByte" -> Case(4, <<79>>)
NeedsEveryPart == \A b \in EncBugs : LET w == Witness(b) IN
    Obligations(4, 3, w.col, w.s, "none") /\ ~Obligations(4, 3, w.col, w.s, b)
=============================================================================
