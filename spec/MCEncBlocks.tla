----------------------------- MODULE MCEncBlocks -----------------------------
(***************************************************************************)
(* The obligations that make block-wise encoding (EncBlocks) the same as   *)
(* the specification's machine (Encoder), for data of every length.        *)
(***************************************************************************)
EXTENDS EncBlocks, TLC
CONSTANTS W, MaxLs
(* unencoded bytes whose encodings are CR (critical), TAB (blank), the dot and an ordinary one *)
Alpha == {227, 223, 4, 79}

(* no part of the design can be left out *)
ASSUME NeedsEveryPart

VARIABLES ls, col, s
Init == ls \in (W + 1)..MaxLs /\ col \in 0..(ls + 2) /\ s = <<>>
Next == Len(s) < W + 2 /\ \E b \in Alpha : s' = Append(s, b) /\ UNCHANGED <<ls, col>>
Spec == Init /\ [][Next]_<<ls, col, s>>

EntryOK == EntryObligation(ls, col, s, "none")
BlockOK == BlockObligation(ls, W, col, s, "none")
TailOK  == TailObligation(ls, col, s, "none")
=============================================================================
