-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* Which calls are accepted.  An argument is described by a record:        *)
(*   [t |-> "buf", n |-> length]     a Buffer                              *)
(*   [t |-> "num", v |-> integer]    an integer                            *)
(*   [t |-> "vast", neg |-> bool]    a number beyond those of 32 bits      *)
(*   [t |-> "undef"]                 undefined, or nothing at all          *)
(*   [t |-> "junk"]                  anything else                         *)
(* Verdicts: "ok", "error", or "open" where nothing is promised.           *)
(* Max is the value of maxSize(n, line size) for encodeTo's sake.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Arg(args, i) == IF i <= Len(args) THEN args[i] ELSE [t |-> "undef"]
Given(args, i) == i <= Len(args)
IsBuf(a) == a.t = "buf"
IsCrc(a) == a.t = "buf" /\ a.n = 4
MaxInt == 2147483647
Numeric(a) == a.t \in {"num", "vast", "undef"}
Or(a, d) == IF a.t = "num" THEN a.v ELSE IF a.t = "vast" THEN IF a.neg THEN -MaxInt ELSE MaxInt ELSE d    \* beyond the largest counts as the largest
LineOf(a) == IF Or(a, 0) = 0 THEN 128 ELSE Or(a, 0)

Lines(line, col) ==          \* the verdict on line size and column offset
    IF ~Numeric(line) \/ ~Numeric(col) THEN "open"
    ELSE IF LineOf(line) < 0 THEN "error"
    ELSE IF Or(col, 0) < 0 \/ Or(col, 0) > LineOf(line) THEN "error" ELSE "ok"

Encode(args) == IF ~IsBuf(Arg(args, 1)) THEN "error" ELSE IF Arg(args, 1).n = 0 THEN "ok" ELSE Lines(Arg(args, 2), Arg(args, 3))
EncodeTo(args, max) ==
    IF ~IsBuf(Arg(args, 1)) \/ ~IsBuf(Arg(args, 2)) THEN "error"
    ELSE IF Arg(args, 1).n = 0 THEN "ok"
    ELSE LET l == Lines(Arg(args, 3), Arg(args, 4)) IN
         IF l # "ok" THEN l ELSE IF Arg(args, 2).n < max THEN "error" ELSE "ok"
Decode(args) == IF ~IsBuf(Arg(args, 1)) THEN "error" ELSE "ok"
DecodeTo(args) == IF ~IsBuf(Arg(args, 1)) \/ ~IsBuf(Arg(args, 2)) THEN "error"
                  ELSE IF Arg(args, 2).n < Arg(args, 1).n THEN "error" ELSE "ok"
Crc32(args) == IF ~IsBuf(Arg(args, 1)) THEN "error" ELSE IF Given(args, 2) /\ ~IsCrc(args[2]) THEN "error" ELSE "ok"
Combine(args) == IF ~IsCrc(Arg(args, 1)) \/ ~IsCrc(Arg(args, 2)) \/ ~Given(args, 3) THEN "error"
                 ELSE IF args[3].t # "num" THEN "open" ELSE IF args[3].v < 0 THEN "open" ELSE "ok"
Powers(args) == IF ~Given(args, 1) THEN "error" ELSE IF Given(args, 2) /\ ~IsCrc(args[2]) THEN "error"      \* zeroes, shift
                ELSE IF args[1].t # "num" THEN "open" ELSE "ok"
Multiply(args) == IF ~IsCrc(Arg(args, 1)) \/ ~IsCrc(Arg(args, 2)) THEN "error" ELSE "ok"
Verdict(fn, args, max) ==
    CASE fn = "encode" -> Encode(args)        [] fn = "encodeTo" -> EncodeTo(args, max)
      [] fn = "decode" -> Decode(args)        [] fn = "decodeTo" -> DecodeTo(args)
      [] fn = "crc32" -> Crc32(args)          [] fn = "crc32_combine" -> Combine(args)
      [] fn \in {"crc32_zeroes", "crc32_shift"} -> Powers(args)
      [] fn = "crc32_multiply" -> Multiply(args)
=============================================================================
