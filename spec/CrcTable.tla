------------------------------ MODULE CrcTable ------------------------------
(* CRC32 in table form (shown equal to the machine of Crc by MCCrc!TableForm), for judging traces. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
LOCAL R == INSTANCE Crc WITH HW <- 16, LW <- 16, PH <- 60856, PL <- 33568, BW <- 8
CRC_Zero == <<0, 0>>
CRC_Tab == R!Table
CRC_Update(tab, crc, s) == R!Compl(FoldLeft(LAMBDA r, b : R!Plus(R!DropByte(r), tab[(r[2] % 256) ^^ b]), R!Compl(crc), s))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexWord(w) == <<HexDigit(w \div 4096), HexDigit((w \div 256) % 16), HexDigit((w \div 16) % 16), HexDigit(w % 16)>>
CRC_Text(c) == HexWord(c[1]) \o HexWord(c[2])
CRC_Join(c1, c2, n) == R!Combine(c1, c2, IF n < 65536 THEN <<n>> ELSE <<n \div 65536, n % 65536>>)
(* the length in decimal digits, so that it may be of any size *)
CRC_JoinDec(c1, c2, d) == R!Plus(R!Mul(c1, FoldLeft(LAMBDA a, x : R!Mul(R!PowBits(a, <<1, 0, 1, 0>>), R!PowBits(R!PowBits(R!X, <<1, 0, 0, 0>>), <<x \div 8, (x \div 4) % 2, (x \div 2) % 2, x % 2>>)), R!One, d)), c2)
=============================================================================
