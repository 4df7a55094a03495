------------------------------ MODULE GenArch -------------------------------
(* Exports every system to simulate, with what its kernel reports. *)
EXTENDS Arch, TLC, Json, IOUtils, SequencesExt
Systems == UNION { { <<a, f, k, v>> : f \in { f \in SUBSET Features[a] : Plausible(a, f) }, k \in SUBSET Features[a], v \in IF a = "riscv64" THEN VectorBits ELSE {0} } : a \in Archs }
Wanted == { s \in Systems : Base[s[1]] \subseteq s[3] /\ (s[1] # "riscv64" \/ "V" \in s[2] \/ s[4] = 128) /\ (IOEnv.DEPTH = "2" \/ Cardinality(s[2] \ s[3]) <= 1) }
Rec(s) == LET rep == Report(s[1], s[2], s[3]) IN [arch |-> s[1], f |-> SetToSeq(s[2]), known |-> SetToSeq(s[3]), vlen |-> s[4], report |-> SetToSeq(rep), probe |-> {"ZBC", "ZBKC"} \cap s[3] # {}, codec |-> Codec(s[1], rep), crc |-> Crc(s[1], rep)]
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({ Rec(s) : s \in Wanted }))
=============================================================================
