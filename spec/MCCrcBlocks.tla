----------------------------- MODULE MCCrcBlocks -----------------------------
(***************************************************************************)
(* The block designs of the CRC in the field of x^4+x+1 with bytes of two  *)
(* bits; each defective one is refuted.  Two and three lanes.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Deep
A == INSTANCE CrcBlocks WITH HW <- 2, LW <- 2, PH <- 3, PL <- 0, BW <- 2, H <- 4, N <- 2
B == INSTANCE CrcBlocks WITH HW <- 2, LW <- 2, PH <- 3, PL <- 0, BW <- 2, H <- 4, N <- 3

(* Folding is linear: UpToTwo, the sums of two basis elements, would show it if it were not.
   A field with more powers: x^8+x^4+x^3+x^2+1 *)
C == INSTANCE CrcBlocks WITH HW <- 4, LW <- 4, PH <- 11, PL <- 8, BW <- 2, H <- 8, N <- 2

ASSUME FoldingA  == A!Folding("none", A!UpToTwo(A!Wide))
ASSUME FoldingB  == B!Folding("none", IF Deep THEN B!UpToTwo(B!Wide) ELSE B!Basis(B!Wide))
ASSUME FoldingC  == Deep => C!Folding("none", C!Basis(C!Wide))
ASSUME ChainingA == A!Chaining("none") /\ B!Chaining("none")
ASSUME PowersA   == A!Powers("none", A!Units, IF Deep THEN 0..15 ELSE {0, 6, 15})
ASSUME PowersC   == C!Powers("none", IF Deep THEN C!Units ELSE {C!X}, IF Deep THEN {0, 1, 37, 128, 254, 255} ELSE {37})
ASSUME Refuted   == /\ \A b \in A!FoldBugs : ~A!Folding(b, A!Basis(A!Wide))
                    /\ \A b \in A!ChainBugs : ~A!Chaining(b)
                    /\ \A b \in A!PowerBugs : ~C!Powers(b, {C!X}, {255})

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
