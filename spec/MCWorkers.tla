----------------------------- MODULE MCWorkers -----------------------------
(* All interleavings of loading, calling and ending. *)
EXTENDS Workers, TLC
=============================================================================
