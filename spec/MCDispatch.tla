----------------------------- MODULE MCDispatch -----------------------------
(* Every processor that can be built up feature by feature: the intended choice exists, is safe, and hiding features never raises it. *)
EXTENDS Dispatch, TLC
CONSTANT Vary                  \* the features that vary; the others are absent
VARIABLE f
Init == f = {}
Next == \E x \in Vary \ f : Plausible(f \cup {x}) /\ f' = f \cup {x}
Spec == Init /\ [][Next]_f
CodecSafe == Required[Codec(f)] \subseteq Available(f)
CrcSafe == CrcRequired[CrcChoice(f)] \subseteq Available(f)
Rank(l) == CHOOSE i \in 1..Len(Levels) : Levels[i] = l
Quirks == {"SLOWSSSE3", "SLOWBLEND", "BOBCAT"}
Monotone == [][ (f' \ f) \cap Quirks = {} => Rank(Codec(f')) >= Rank(Codec(f)) ]_f
TypeOK == Available(f) \subseteq (Plain \cup Ymm \cup Zmm \cup {"EVEX512"}) /\ Plausible(f) /\ Shrunk(f) = f
ASSUME \A t \in Typical : Plausible(Shrunk(t)) /\ Required[Codec(t)] \subseteq Available(t)
=============================================================================
