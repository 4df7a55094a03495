------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* The obligations that make block-wise decoding (Blocks) the same as the  *)
(* specification's machine (Decoder), for data of every length: Rel is     *)
(* established by Entry, kept by every block, enough to recover from when  *)
(* the end is in view, and enough to finish one byte at a time.  Checked   *)
(* for every state and every window of W + 4 symbols.                      *)
(***************************************************************************)
EXTENDS Blocks, TLC
CONSTANT W
Alpha == {EQ, CR, LF, DOT, LOWY, 65}

(* no part of the design can be left out *)
ASSUME NeedsEveryPart

VARIABLES mode, st, s
vars == <<mode, st, s>>
(* the window is filled one symbol at a time, to spread the work *)
Init == mode \in Modes /\ st \in StatesOf(mode) /\ s = <<>>
Next == Len(s) < W + 4 /\ \E b \in Alpha : s' = Append(s, b) /\ UNCHANGED <<mode, st>>
Spec == Init /\ [][Next]_vars

EntryOK == EntryObligation(mode, st, s, "none")
BlockOK == BlockObligation(W, mode, st, s, "none")
TailOK  == TailObligation(mode, st, s, "none")
=============================================================================
