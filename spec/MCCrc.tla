-------------------------------- MODULE MCCrc --------------------------------
(***************************************************************************)
(* The CRC design, exhaustively in a small field (x^5+x^2+1, 2-bit bytes,  *)
(* order 31): the register machine hashing two strings a, b side by side,  *)
(* and the laws of the algebra; plus the CRC32 instance on known values.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
CONSTANT MaxLen
S == INSTANCE Crc WITH HW <- 2, LW <- 3, PH <- 2, PL <- 4, BW <- 2
R == INSTANCE Crc WITH HW <- 16, LW <- 16, PH <- 60856, PL <- 33568, BW <- 8

VARIABLES a, b, ca, cb, cab   \* two strings; CRCs of a, of b, of a\o b, kept incrementally
vars == <<a, b, ca, cb, cab>>
Init == a = <<>> /\ b = <<>> /\ ca \in {S!Zero} /\ cb = S!Zero /\ cab = S!Zero
FeedA(x) == b = <<>> /\ Len(a) < MaxLen /\ a' = Append(a, x) /\ ca' = S!Update(ca, <<x>>) /\ cab' = ca' /\ UNCHANGED <<b, cb>>
FeedB(x) == Len(b) < MaxLen /\ b' = Append(b, x) /\ cb' = S!Update(cb, <<x>>) /\ cab' = S!Update(cab, <<x>>) /\ UNCHANGED <<a, ca>>
Next == \E x \in 0..3 : FeedA(x) \/ FeedB(x)
Spec == Init /\ [][Next]_vars

L(n) == <<n>>
Incremental == ca = S!CrcOf(a) /\ cb = S!CrcOf(b) /\ cab = S!CrcOf(a \o b)
CombineLaw  == S!Combine(ca, cb, L(Len(b))) = cab
ZeroesLaw   == \A n \in 0..6 : /\ S!Zeroes(FALSE, L(n), ca) = S!Update(ca, [i \in 1..n |-> 0])
                               /\ S!Zeroes(TRUE, L(n), S!Zeroes(FALSE, L(n), ca)) = ca
                               /\ S!Zeroes(FALSE, L(n), S!Zeroes(TRUE, L(n), ca)) = ca

TableForm   == \A x \in 0..3 : S!ByteStep(ca, x) = S!Plus(S!DropByte(ca), S!Table[(ca[2] % 4) ^^ x])

(* ring laws, over all values of the small field *)
V == S!Val
ASSUME RingLaws ==
    /\ \A p, q \in V : S!Mul(p, q) = S!Mul(q, p)
    /\ \A p \in V : S!Mul(p, S!One) = p /\ S!TimesX(p) = S!Mul(p, S!X) /\ S!DivX(S!TimesX(p)) = p /\ S!TimesX(S!DivX(p)) = p
    /\ \A p, q, r \in V : S!Mul(p, S!Mul(q, r)) = S!Mul(S!Mul(p, q), r) /\ S!Mul(p, S!Plus(q, r)) = S!Plus(S!Mul(p, q), S!Mul(p, r))
ASSUME PowerLaws ==
    /\ \A n \in 0..40 : S!XPow(FALSE, <<n>>) = S!XPow(FALSE, <<n % 31>>) /\ S!Mul(S!XPow(FALSE, <<n>>), S!XPow(TRUE, <<n>>)) = S!One
    /\ \A m, n \in 0..12 : S!Mul(S!XPow(FALSE, <<m>>), S!XPow(FALSE, <<n>>)) = S!XPow(FALSE, <<m + n>>)
    /\ \A n \in 1..30 : S!XPow(FALSE, <<n>>) # S!One
(* the CRC32 instance: check value of "123456789" is CBF43926 *)
ASSUME CheckValue == R!CrcOf(<<49,50,51,52,53,54,55,56,57>>) = <<52212, 14630>>
ASSUME CombineReal == R!Combine(R!CrcOf(<<49,50,51>>), R!CrcOf(<<52,53,54,55,56,57>>), <<6>>) = <<52212, 14630>>
ASSUME OrderReal == R!XPow(FALSE, <<65535, 65535>>) = R!One /\ R!XPow(FALSE, <<1, 0, 0>>) = R!X /\ R!XPow(TRUE, <<1, 0, 0>>) = R!XInv
=============================================================================
