------------------------------- MODULE GenCpu -------------------------------
(* Exports processors to simulate: the typical ones and those that differ from one in up to DEPTH features, with what each offers. *)
EXTENDS Dispatch, TLC, Json, IOUtils, SequencesExt
RECURSIVE Near(_)
Near(k) == IF k = 0 THEN { Shrunk(t) : t \in Typical } ELSE LET n == Near(k - 1) IN n \cup { Shrunk(Flip(t, x)) : t \in n, x \in Features }
Rec(f) == [f |-> SetToSeq(f), codec |-> Codec(f), crc |-> CrcChoice(f)]
ASSUME JsonSerialize(IOEnv.OUT, [bits |-> Bit, cpus |-> SetToSeq({ Rec(f) : f \in Near(IF IOEnv.DEPTH = "2" THEN 2 ELSE 1) })])
=============================================================================
