------------------------------ MODULE MCLedger ------------------------------
(* All histories of calls, failures, collections and ending threads. *)
EXTENDS Ledger, TLC
=============================================================================
