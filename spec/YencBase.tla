------------------------------ MODULE YencBase ------------------------------
(* Byte-level vocabulary of yEnc and NNTP, shared by all modules.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Byte == 0..255
NUL == 0   TAB == 9   LF == 10   CR == 13   SPACE == 32   DOT == 46
EQ == 61   LOWY == 121
CRLF == <<CR, LF>>

(* yEnc: a byte is shifted by 42; an escaped one by a further 64. *)
Shift(b)   == (b + 42) % 256
Unshift(c) == (c + 214) % 256
EscShift(b)   == (b + 106) % 256
EscUnshift(c) == (c + 150) % 256

Critical == {NUL, LF, CR, EQ}      \* may never appear literally in encoded data
Blank    == {TAB, SPACE}           \* may not appear literally at either end of a line

=============================================================================
