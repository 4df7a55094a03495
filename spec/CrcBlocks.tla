------------------------------ MODULE CrcBlocks ------------------------------
(***************************************************************************)
(* How the CRC is computed many bits at once, against Crc, which takes one *)
(* bit at a time.  Three designs:                                          *)
(*  Folding (x86, and RISC-V alike): N lanes of 2H bits hold a polynomial  *)
(*    congruent to what has been read; Value says to which register it     *)
(*    corresponds, and each operation moves Value as Crc moves the         *)
(*    register.  Being linear, an operation is right if it is so on a      *)
(*    basis of the lanes and the data.                                     *)
(*  Chains (without such instructions): word i goes to chain i mod N.      *)
(*  Powers (combine, shift, zeroes): x^n from a table of x^(2^k), with n   *)
(*    reduced modulo the order of x, which is 2^R - 1.                     *)
(* Polynomials are sequences of bits in the order they are read: the first *)
(* is the highest power.  `bug` names a design with one thing wrong, which *)
(* must fail (see Blocks).                                                 *)
(***************************************************************************)
EXTENDS Crc
CONSTANTS H, N            \* half a lane, in bits; lanes or chains

R    == HW + LW
Lane == 2 * H
Wide == N * Lane          \* all lanes

FoldBugs  == {"foldSwap", "foldSame", "initFar", "partialDrop", "partialFront", "partialAgain", "shortKeep", "shortOrder", "finishNear", "finishLost", "barrettLow", "barrettMu"}
ChainBugs == {"chainLost", "chainEarly", "chainExtra", "chainStep", "headTwice"}
PowerBugs == {"noCarry", "noRotate", "negPlus", "tableOff", "lowLost", "reduceOnce", "secondLost"}
CrcBugs   == FoldBugs \cup ChainBugs \cup PowerBugs

-----------------------------------------------------------------------------
Zeros(n)   == [i \in 1..n |-> 0]
XorS(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Part(s, i, j) == SubSeq(s, i, j)
BitsOf(v)  == [i \in 1..R |-> BitOf(v, i - 1)]                     \* the lowest bit is the highest power
AddOne(v)  == Plus(v, One)
Eval(s)    == FoldLeft(LAMBDA v, b : IF b = 1 THEN AddOne(TimesX(v)) ELSE TimesX(v), Zero, s)
Feed(v, s) == FoldLeft(LAMBDA r, b : TimesX(IF b = 1 THEN <<r[1], r[2] ^^ 1>> ELSE r), v, s)
Pow(n)     == IF n < 0 THEN XPow(TRUE, <<-n>>) ELSE XPow(FALSE, <<n>>)

(* the product of two polynomials, unreduced *)
ClMul(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |->
                  FoldLeft(LAMBDA x, i : IF k - i + 1 \in 1..Len(b) THEN x ^^ (a[i] * b[k - i + 1]) ELSE x, 0, [i \in 1..Len(a) |-> i])]
PadL(s, n) == Zeros(n - Len(s)) \o s
PadR(s, n) == s \o Zeros(n - Len(s))
KBits(n) == BitsOf(Pow(n))

(* x^R * (the polynomial in the lanes), reduced: the register they stand for *)
Value(s) == Mul(Eval(s), Pow(R))
LaneOf(s, i) == Part(s, (i - 1) * Lane + 1, i * Lane)
Join(ls) == FoldLeft(LAMBDA a, l : a \o l, <<>>, ls)

(* lane * x^d, congruently: H + R - 1 bits, which must fit *)
Fold(l, d, bug) ==
    LET hi == Part(l, 1, H)  lo == Part(l, H + 1, Lane)
        a == IF bug = "foldSwap" THEN lo ELSE hi   b == IF bug = "foldSwap" THEN hi ELSE lo
    IN  PadL(XorS(ClMul(a, KBits(IF bug = "foldSame" THEN d ELSE d + H)), ClMul(b, KBits(d))), Lane)

(* The register to begin with: multiplied by a power that undoes the place it is put. *)
Start(v, bug) == PadR(ClMul(BitsOf(v), KBits(IF bug = "initFar" THEN R - Wide ELSE (2 * R - 1) - R - Wide)), Wide)
(* m lanes of data, 1 <= m <= N *)
Take(s, d, bug) ==
    LET m == Len(d) \div Lane
        new == [i \in 1..m |-> XorS(Fold(LaneOf(s, i), Wide, bug), LaneOf(d, i))]
        old == [i \in 1..(N - m) |-> LaneOf(s, IF bug = "shortKeep" THEN i ELSE i + m)]
    IN  IF bug = "shortOrder" THEN Join(new \o old) ELSE Join(old \o new)
(* less than a lane of data *)
TakePart(s, d, bug) ==
    LET k == Len(d)
        gone == Part(s, 1, k)
        kept == Part(s, k + 1, Wide) \o d
        back == Fold(IF bug = "partialFront" THEN PadR(gone, Lane) ELSE PadL(gone, Lane), Wide, bug)
    IN  IF bug = "partialDrop" THEN kept
        ELSE Part(kept, 1, Wide - Lane) \o XorS(IF bug = "partialAgain" THEN Part(s, Wide - Lane + 1, Wide) ELSE Part(kept, Wide - Lane + 1, Wide), back)

(* Division by the polynomial, by multiplication with its reciprocal (whose last bit has no part in it). *)
PolyBits == <<1>> \o BitsOf(Poly)
LongDiv(s) ==   \* [q, r] by long division
    FoldLeft(LAMBDA a, i : IF a.r[i] = 1 THEN [q |-> Append(a.q, 1), r |-> [j \in 1..Len(s) |-> IF j \in i..(i + R) THEN a.r[j] ^^ PolyBits[j - i + 1] ELSE a.r[j]]]
                           ELSE [q |-> Append(a.q, 0), r |-> a.r],
             [q |-> <<>>, r |-> s], [i \in 1..(Len(s) - R) |-> i])
Mu(n) == LongDiv(<<1>> \o Zeros(n + R)).q                           \* floor(x^(n+R) / P): n + 1 bits
Barrett(s, bug) ==   \* s: n + R bits
    LET n == Len(s) - R
        mu == IF bug = "barrettMu" THEN [Mu(n) EXCEPT ![n] = 1 - @] ELSE Mu(n)
        q == LET p == ClMul(Part(s, 1, n), mu) IN Part(p, 1, IF bug = "barrettLow" THEN n - 1 ELSE n)   \* p has 2n bits: the upper half
    IN  Part(XorS(s, PadL(ClMul(q, PolyBits), n + R)), n + 1, n + R)

RegOf(s) == \* R bits, highest power first, to a register
    Eval(s)
Finish(s, bug) ==
    LET one == FoldLeft(LAMBDA l, i : XorS(IF bug = "finishLost" /\ i = N THEN Zeros(Lane) ELSE Fold(l, IF bug = "finishNear" THEN H ELSE Lane, bug), LaneOf(s, i)),
                        LaneOf(s, 1), [i \in 1..(N - 1) |-> i + 1])
        hi == Part(one, 1, H)  lo == Part(one, H + 1, Lane)
        short == XorS(PadL(ClMul(hi, KBits(H + R)), H + R), lo \o Zeros(R))
    IN  RegOf(Barrett(short, bug))

StartRight(v, bug)       == Value(Start(v, bug)) = v
TakeRight(s, d, bug)     == Value(Take(s, d, bug)) = Feed(Value(s), d)
TakePartRight(s, d, bug) == Value(TakePart(s, d, bug)) = Feed(Value(s), d)
FinishRight(s, bug)      == Finish(s, bug) = Value(s)
-----------------------------------------------------------------------------
(* Words of R bits, in N chains; c[1] is next. *)
WordReg(w) == RegOf(w)                                             \* a word as it lies in the register
Step(v, n) == FoldLeft(LAMBDA a, i : TimesX(a), v, [i \in 1..n |-> i])
Words(d)   == [i \in 1..(Len(d) \div R) |-> Part(d, (i - 1) * R + 1, i * R)]
Round(c, ws, bug) == [i \in 1..N |-> Step(Plus(c[i], WordReg(ws[i])), IF bug = "chainStep" /\ i = N THEN R ELSE N * R)]
(* together: the other chains are ahead of the first by a word each, so each is added after one word more *)
Gather(c, ws, bug) ==
    FoldLeft(LAMBDA v, i : IF bug = "chainEarly" /\ i = N THEN Step(Plus(Plus(v, WordReg(ws[i - 1])), c[i]), R)
                           ELSE LET t == Step(Plus(v, WordReg(ws[i - 1])), R) IN IF bug = "chainLost" /\ i = 2 THEN t ELSE Plus(t, c[i]),
             c[1], [i \in 1..(N - 1) |-> i + 1])
(* with one word more, which goes to the first chain as in a round, and the order turned *)
GatherMore(c, ws, bug) ==
    LET first == Step(Plus(c[1], WordReg(ws[1])), IF bug = "chainExtra" THEN R ELSE N * R)
        r == FoldLeft(LAMBDA v, i : LET t == Step(Plus(v, WordReg(ws[i])), R) IN IF i = N THEN t ELSE Plus(t, c[i + 1]), c[2], [i \in 1..(N - 1) |-> i + 1])
    IN  Plus(r, first)
Chained(v, d, rounds, more, bug) ==   \* the register after d, which has as many words as that needs
    LET ws == Words(d)
        c0 == [i \in 1..N |-> IF i = 1 \/ bug = "headTwice" THEN v ELSE Zero]
        c == FoldLeft(LAMBDA cs, k : Round(cs, Part(ws, (k - 1) * N + 1, k * N), bug), c0, [k \in 1..rounds |-> k])
        rest == Part(ws, rounds * N + 1, Len(ws))
    IN  IF more THEN GatherMore(c, rest, bug) ELSE Gather(c, rest, bug)
ChainedRight(v, d, rounds, more, bug) == Chained(v, d, rounds, more, bug) = Feed(v, d)
-----------------------------------------------------------------------------
(* Exponents: words of R bits. *)
M     == 2^R
Order == M - 1
Reduced(hi, lo, bug) == LET t == hi + lo IN (t % M) + (IF t >= M /\ bug # "noCarry" THEN 1 ELSE 0)     \* hi * M + lo, modulo the order (or the order itself for 0)
LogBW == CHOOSE e \in 0..5 : 2^e = BW
Bytes(n, bug)   == IF bug = "noRotate" THEN (n * BW) % M ELSE ((n * BW) % M) + (n \div 2^(R - LogBW))
Negated(n, bug) == IF bug = "negPlus" THEN (M - n) % M ELSE Order - n
TablePow(k, bug) == Pow(IF bug = "tableOff" /\ k = R - 1 THEN 1 ELSE 2^k)
Bit(n, k) == (n \div 2^k) % 2
ShiftTable(v, n, from, bug) == FoldLeft(LAMBDA a, k : IF k > from /\ Bit(n, k - 1) = 1 THEN Mul(a, TablePow(k - 1, bug)) ELSE a, v, [k \in 1..R |-> k])
LogR == CHOOSE e \in 0..5 : 2^e = R
(* the amount below R by an actual shift, which is then reduced *)
ShiftDirect(v, m, bug) == LET s == BitsOf(v) \o Zeros(m) IN IF bug = "reduceOnce" /\ m > 1 THEN Eval(Part(s, m + 1, m + R)) ELSE Eval(s)
ShiftFast(v, n, bug) == ShiftTable(IF bug = "lowLost" /\ n \div R = 0 THEN v ELSE ShiftDirect(v, n % R, bug), n, LogR, bug)
(* the powers multiplied in two halves, then together *)
ShiftTwo(v, n, bug) ==
    LET ks == SelectSeq([i \in 1..(R - LogR) |-> i + LogR - 1], LAMBDA k : Bit(n, k) = 1)
        r1 == ShiftDirect(v, n % R, bug)
        even == FoldLeftDomain(LAMBDA a, i : IF i % 2 = 0 THEN Mul(a, TablePow(ks[i], bug)) ELSE a, r1, ks)
        odd  == FoldLeftDomain(LAMBDA b, i : IF i % 2 = 1 /\ (bug # "secondLost" \/ i = 1) THEN Mul(b, TablePow(ks[i], bug)) ELSE b, One, ks)
    IN  Mul(even, odd)

ShiftRight(v, hi, lo, bug) == LET n == Reduced(hi, lo, bug)  want == Mul(v, PowBits(X, [i \in 1..(2 * R) |-> Bit(hi * M + lo, 2 * R - i)])) IN
    /\ ShiftTable(v, n, 0, bug) = want /\ ShiftFast(v, n, bug) = want /\ ShiftTwo(v, n, bug) = want
    /\ Mul(ShiftTable(v, Negated(n, bug), 0, bug), PowBits(X, [i \in 1..(2 * R) |-> Bit(hi * M + lo, 2 * R - i)])) = v
    /\ ShiftTable(v, Bytes(n, bug), 0, bug) = Mul(v, PowBits(X, [i \in 1..(2 * R) |-> Bit(hi * M + lo, 2 * R - i)] \o Zeros(LogBW)))
-----------------------------------------------------------------------------
(* The obligations over given sets: lanes, data of a whole number of lanes, data of part of a lane. *)
Basis(n) == {Zeros(n)} \cup {[i \in 1..n |-> IF i = k THEN 1 ELSE 0] : k \in 1..n}
UpToTwo(n) == {[i \in 1..n |-> IF i = k \/ i = l THEN 1 ELSE 0] : k \in 1..n, l \in 1..n} \cup {Zeros(n)}
Registers == Val

Folding(bug, lanes) ==
    /\ \A v \in Registers : StartRight(v, bug)
    /\ \A s \in lanes : FinishRight(s, bug)
    /\ \A s \in lanes, m \in 1..N : TakeRight(s, Zeros(m * Lane), bug)
    /\ \A s \in lanes, k \in {j \in 1..(Lane - 1) : j % BW = 0} : TakePartRight(s, Zeros(k), bug)
    /\ \A m \in 1..N : \A d \in Basis(m * Lane) : TakeRight(Zeros(Wide), d, bug)
    /\ \A k \in {j \in 1..(Lane - 1) : j % BW = 0} : \A d \in Basis(k) : TakePartRight(Zeros(Wide), d, bug)
(* d has the words that 0 to 2 rounds and gathering need *)
Chaining(bug) ==
    \A rounds \in 0..2, more \in {FALSE, TRUE} :
        LET n == (rounds * N + N - 1 + (IF more THEN 1 ELSE 0)) * R IN
        /\ \A v \in Registers : ChainedRight(v, Zeros(n), rounds, more, bug)
        /\ \A d \in Basis(n) : ChainedRight(Zero, d, rounds, more, bug)
Units == {Zero} \cup {Pow(k) : k \in 0..(R - 1)}
Powers(bug, units, highs) == \A v \in units, hi \in highs, lo \in 0..(M - 1) : ShiftRight(v, hi, lo, bug)
=============================================================================
