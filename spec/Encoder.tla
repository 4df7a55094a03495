------------------------------- MODULE Encoder -------------------------------
(***************************************************************************)
(* The yEnc encoder as a machine that is fed one byte at a time.           *)
(* Its only state is `col`, the number of characters already on the        *)
(* current output line.  A line break is emitted lazily: before a byte,    *)
(* and only when the line is full; so the output never ends in one.        *)
(***************************************************************************)
EXTENDS YencBase

(* Arguments as the API interprets them. *)
LineSize(ls)    == IF ls = 0 THEN 128 ELSE ls
StartCol(ls, c) == IF c = LineSize(ls) THEN 0 ELSE c

(* Does byte b (unencoded) need escaping, given where it lands? *)
NeedsEscape(b, first, last, final) ==
    LET c == Shift(b) IN
    \/ c \in Critical
    \/ c \in Blank /\ (first \/ last \/ final)
    \/ c = DOT /\ first

Unit(b, first, last, final) ==
    IF NeedsEscape(b, first, last, final)
    THEN <<EQ, EscShift(b)>>
    ELSE <<Shift(b)>>

Full(ls, col) == col >= ls

(* One step: the characters emitted for b, and the column afterwards. *)
EncStep(ls, col, b, final) ==
    LET brk == Full(ls, col)
        c0  == IF brk THEN 0 ELSE col
        u   == Unit(b, c0 = 0, c0 = ls - 1, final)
    IN  [out |-> (IF brk THEN CRLF ELSE <<>>) \o u, col |-> IF c0 > 2147483645 THEN 2147483647 ELSE c0 + Len(u)]     \* full is full (and TLC has 32 bits)

(* The whole encoding, as a function (used on small inputs). *)
Encode(data, ls0, col0) ==
    LET ls == LineSize(ls0)
        n  == Len(data)
        F[i \in 0..n] == IF i = 0 THEN [out |-> <<>>, col |-> StartCol(ls0, col0)]
                         ELSE LET s == EncStep(ls, F[i-1].col, data[i], i = n)
                              IN  [out |-> F[i-1].out \o s.out, col |-> s.col]
    IN  F[n].out

(* `out`, from position p on, begins with the sequence u. *)
At(out, p, u) == /\ p + Len(u) - 1 <= Len(out)
                 /\ \A k \in 1..Len(u) : out[p + k - 1] = u[k]

(* out = Encode(data, ls0, col0), decided in one linear pass. *)
IsEncodingOf(out, data, ls0, col0) ==
    LET ls == LineSize(ls0)
        n  == Len(data)
        fin == FoldLeftDomain(
                 LAMBDA a, i :
                   IF a.p = 0 THEN a ELSE
                   LET s == EncStep(ls, a.col, data[i], i = n)
                   IN  IF At(out, a.p, s.out)
                       THEN [p |-> a.p + Len(s.out), col |-> s.col]
                       ELSE [p |-> 0, col |-> 0],
                 [p |-> 1, col |-> StartCol(ls0, col0)], data)
    IN  fin.p = Len(out) + 1
=============================================================================
