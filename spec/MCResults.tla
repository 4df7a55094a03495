----------------------------- MODULE MCResults -----------------------------
EXTENDS Results, TLC
=============================================================================
