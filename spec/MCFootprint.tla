----------------------------- MODULE MCFootprint -----------------------------
(***************************************************************************)
(* A small memory holding Buffers between inaccessible cells, and calls     *)
(* that take arbitrary steps within their footprint.  Shows that the        *)
(* footprint is what keeps Buffers apart: whatever a call within it does,   *)
(* no other Buffer changes, no inaccessible cell is touched, results once   *)
(* returned stay as they were, and rejected calls change nothing.  Also     *)
(* that decoding in place is possible at all within it: the decoder never   *)
(* has more output than input.                                              *)
(***************************************************************************)
EXTENDS Footprint, Sequences, FiniteSets, TLC
CONSTANTS Cells, MaxCalls
D == INSTANCE Decoder
VARIABLES mem, bufs, kept, call, count, broken, hist
vars == <<mem, bufs, kept, call, count, broken, hist>>
None == [fn |-> "none", n |-> 0, max |-> 0, rejected |-> FALSE, insitu |-> FALSE, i |-> 0, o |-> 0]
(* three Buffers in a row: positions 1.., separated by inaccessible cells; cell values are just version numbers *)
Layouts == { <<[at |-> 1, len |-> a], [at |-> a + 2, len |-> b]>> : a \in 0..Cells, b \in 0..Cells }
Top == 2 * Cells + 3
Init == /\ bufs \in Layouts /\ mem = [c \in 0..Top |-> 0] /\ kept = {} /\ call = None /\ count = 0 /\ broken = FALSE /\ hist = <<>>
Need(f, n) == IF f = "encodeTo" THEN n + 1 ELSE n              \* a stand-in for maxSize
Begin == /\ call.fn = "none" /\ count < MaxCalls
         /\ \E f \in Into, i \in 1..2, o \in 1..2 :
              /\ (f = "encodeTo" => i # o)
              /\ o \notin kept                                  \* the caller keeps what it still needs
              /\ call' = [fn |-> f, n |-> bufs[i].len, max |-> Need(f, bufs[i].len), rejected |-> bufs[o].len < Need(f, bufs[i].len), insitu |-> i = o, i |-> i, o |-> o]
              /\ hist' = mem
         /\ count' = count + 1 /\ UNCHANGED <<mem, bufs, kept, broken>>
Read == /\ call.fn # "none"
        /\ \E k \in -1..Cells + 1 : bufs[call.i].len > 0 /\ MayRead(call, 64 * bufs[call.i].len, 0, <<64 * k, 64 * k + 64>>) /\ broken' = (broken \/ k < 0 \/ k >= bufs[call.i].len)
        /\ UNCHANGED <<mem, bufs, kept, call, count, hist>>
Write == /\ call.fn # "none"
         /\ \E k \in -1..Cells + 1 : MayWriteOutput(call, <<k, k + 1>>) /\ mem' = [mem EXCEPT ![bufs[call.o].at + k] = count]
         /\ UNCHANGED <<bufs, kept, call, count, broken, hist>>
End == /\ call.fn # "none" /\ call' = None
       /\ kept' = IF call.rejected THEN kept ELSE kept \cup {call.o}
       /\ UNCHANGED <<mem, bufs, count, broken, hist>>
Release == /\ call.fn = "none" /\ kept # {} /\ kept' = {} /\ UNCHANGED <<mem, bufs, call, count, broken, hist>>
Next == Begin \/ Read \/ Write \/ End \/ Release
Spec == Init /\ [][Next]_vars
Cellset(b) == { bufs[b].at + k : k \in 0..(bufs[b].len - 1) }
Guards == (0..Top) \ (Cellset(1) \cup Cellset(2))
GuardsIntact == \A c \in Guards : mem[c] = 0
NoWildRead == ~broken
OnlyOutputChanges == call.fn # "none" => \A c \in 0..Top : mem[c] # hist[c] => /\ c \in Cellset(call.o) /\ ~call.rejected /\ c < bufs[call.o].at + Extent(call)
KeptStays == [][\A b \in kept \cap kept' : \A c \in Cellset(b) : mem'[c] = mem[c]]_vars
(* in-place decoding never overtakes its input *)
Alpha == {13, 10, 46, 61, 121, 65}
Strings == UNION { [1..k -> Alpha] : k \in 0..4 }
ASSUME \A m \in {"plain", "raw", "chunk"}, s \in Strings, st \in D!DState :
          (m = "plain" => st = "none") => LET a == D!Run(m, st, s) IN Len(a.o) <= a.r
=============================================================================
