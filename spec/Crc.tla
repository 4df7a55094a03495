--------------------------------- MODULE Crc ---------------------------------
(***************************************************************************)
(* A reflected CRC as arithmetic in GF(2)[x] modulo a polynomial.          *)
(* A value is a pair <<hi, lo>> of HW and LW bits (TLC integers are 32-bit  *)
(* signed, so CRC32 is held as 16+16).  The most significant bit is the     *)
(* coefficient of x^0, the least significant that of x^(HW+LW-1).           *)
(* <<PH, PL>> is the polynomial without its leading term, BW the bits per   *)
(* byte.  CRC32: HW = LW = 16, <<16r EDB8, 16r 8320>>, BW = 8.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
CONSTANTS HW, LW, PH, PL, BW

Val  == (0..(2^HW - 1)) \X (0..(2^LW - 1))
Zero == <<0, 0>>
One  == <<2^(HW-1), 0>>
Poly == <<PH, PL>>
Ones == <<2^HW - 1, 2^LW - 1>>

Plus(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Compl(a)   == Plus(a, Ones)

(* multiplication and division by x *)
Shr(a) == <<a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 2^(LW-1)>>
Shl(a) == <<(a[1] * 2 + a[2] \div 2^(LW-1)) % 2^HW, (a[2] * 2) % 2^LW>>
TimesX(a) == IF a[2] % 2 = 1 THEN Plus(Shr(a), Poly) ELSE Shr(a)
Top(a)    == a[1] \div 2^(HW-1) = 1
DivX(a)   == IF Top(a) THEN LET s == Shl(Plus(a, Poly)) IN <<s[1], s[2] + 1>> ELSE Shl(a)

(* product: Horner's rule, from the highest power of b down *)
BitOf(b, k) == IF k < LW THEN (b[2] \div 2^k) % 2 ELSE (b[1] \div 2^(k - LW)) % 2
Mul(a, b) == FoldLeft(LAMBDA acc, k : LET t == TimesX(acc) IN IF BitOf(b, k - 1) = 1 THEN Plus(t, a) ELSE t,
                      Zero, [i \in 1..(HW + LW) |-> i])
XInv == DivX(One)
X    == TimesX(One)

(* base^n where n is a sequence of bits, most significant first *)
PowBits(base, bits) == FoldLeft(LAMBDA acc, d : LET q == Mul(acc, acc) IN IF d = 1 THEN Mul(q, base) ELSE q, One, bits)

(* Exponents arrive as a sign and 16-bit limbs, most significant first. *)
LimbBits(w) == [i \in 1..16 |-> (w \div 2^(16 - i)) % 2]
Bits(limbs) == FoldLeft(LAMBDA acc, w : acc \o LimbBits(w), <<>>, limbs)
XPow(neg, limbs) == PowBits(IF neg THEN XInv ELSE X, Bits(limbs))
(* x^(8n) for bytes, BW = 8: three more zero bits *)
XPowBytes(neg, limbs) == LET p == XPow(neg, limbs) IN PowBits(p, LET e == CHOOSE e \in 0..5 : 2^e = BW IN <<1>> \o [i \in 1..e |-> 0])

-----------------------------------------------------------------------------
(* The CRC as a machine over bytes.  Public values are complemented registers. *)
ByteStep(reg, b) == FoldLeft(LAMBDA r, k : TimesX(r), <<reg[1], reg[2] ^^ b>>, [i \in 1..BW |-> i])
Update(crc, s)   == Compl(FoldLeft(LAMBDA r, b : ByteStep(r, b), Compl(crc), s))
CrcOf(s)         == Update(Zero, s)

(* table form: a byte step needs only the low byte of the register *)
Table == [b \in 0..(2^BW - 1) |-> ByteStep(Zero, b)]
DropByte(r) == LET d == 2^BW IN <<r[1] \div d, (r[2] \div d) + (r[1] % d) * 2^(LW - BW)>>

(* the derived operations of the API *)
Combine(c1, c2, limbs)  == Plus(Mul(c1, XPowBytes(FALSE, limbs)), c2)
Zeroes(neg, limbs, c)   == Compl(Mul(Compl(c), XPowBytes(neg, limbs)))
ShiftBy(neg, limbs, c)  == Mul(c, XPow(neg, limbs))
=============================================================================
