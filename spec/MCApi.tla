-------------------------------- MODULE MCApi --------------------------------
(***************************************************************************)
(* A client that calls decodeChunk with strings of its own making for the  *)
(* state, and a gatekeeper that is shown every kind of argument list.      *)
(***************************************************************************)
EXTENDS Decoder, Sizes, TLC
CONSTANTS MaxStr, MaxN, MaxLs
G == INSTANCE Gate
Alpha == {CR, LF, DOT, EQ, LOWY, 65}
VARIABLES str, args
Init == str = <<>> /\ args = <<>>
Kinds == [t : {"buf"}, n : {0, 3, 4, 5, 300}] \cup [t : {"num"}, v : {-1, 0, 1, 3, 128, 129}] \cup [t : {"vast"}, neg : BOOLEAN] \cup {[t |-> "undef"], [t |-> "junk"]}
Next == \/ args = <<>> /\ Len(str) < MaxStr /\ \E c \in Alpha : str' = Append(str, c) /\ UNCHANGED args
        \/ str = <<>> /\ Len(args) < 4 /\ \E k \in Kinds : args' = Append(args, k) /\ UNCHANGED str
Spec == Init /\ [][Next]_<<str, args>>

(* a state string means one state; more history in front of it never changes that unless it completes a longer one *)
Meaning == StateOfStr(str) \in DState
OnlyLast4 == \A c \in Alpha : Len(str) >= 4 => StateOfStr(<<c>> \o str) = StateOfStr(str)
CanonicalNames == \A st \in DState : StateOfStr(StateStr(st)) = st
(* the meaning of the characters themselves: a string of characters seen since the start of a line leads to its state *)
FaithfulFromBreak == StrIsState(str) => Run("chunk", "none", str).st = StateOfStr(str)
(* gates: total, and decided as the statement says *)
Fns == {"encode", "encodeTo", "decode", "decodeTo", "crc32", "crc32_combine", "crc32_zeroes", "crc32_shift", "crc32_multiply"}
Total == \A f \in Fns : G!Verdict(f, args, 10) \in {"ok", "error", "open"}
NeedsBuffer == (Len(args) = 0 \/ args[1].t # "buf") => \A f \in Fns \ {"crc32_zeroes", "crc32_shift"} : G!Verdict(f, args, 10) = "error"
Vast == Len(args) = 3 /\ args[1].t = "buf" /\ args[1].n # 0 /\ G!Numeric(args[2]) /\ G!Numeric(args[3]) =>      \* never taken for a smaller number
    (G!Verdict("encode", args, 10) = "error" <=>
        LET Neg(a) == (a.t = "vast" /\ a.neg) \/ (a.t = "num" /\ a.v < 0) IN
        Neg(args[2]) \/ Neg(args[3]) \/ (args[3].t = "vast" /\ args[2].t # "vast") \/ (args[3].t = "num" /\ args[2].t # "vast" /\ args[3].v > G!LineOf(args[2])))
NoArgs == args = <<>> => \A f \in Fns : G!Verdict(f, args, 10) = "error"
(* sizes against the plain definition, for small numbers *)
SizeTable == str = <<>> /\ args = <<>> =>
    \A n \in 0..MaxN, ls \in 0..MaxLs :
        LET L == IF ls = 0 THEN 128 ELSE ls IN
        /\ MinSize(Dec(n), ls) = Dec(IF n = 0 THEN 0 ELSE n + 2 * ((n - 1) \div L))
        /\ MaxSize(Dec(n), ls, 1, 1, 66) = Dec(IF n = 0 THEN 0 ELSE 2 * n + 2 * ((2 * n) \div L) + 66)
        /\ Leq(MinSize(Dec(n), ls), Bound(Dec(n), ls)) /\ (n > 0 => Leq(Bound(Dec(n), ls), MaxSize(Dec(n), ls, 1, 1, 66)))
        /\ \A k \in 0..8 : Leq(MaxSize(Dec(n), ls, k, 8, 66), MaxSize(Dec(n), ls, IF k = 8 THEN 8 ELSE k + 1, 8, 66))
=============================================================================
