------------------------------ MODULE Workers ------------------------------
(***************************************************************************)
(* Threads (or contexts) that load the library, call it and end, in any    *)
(* order.  The library's shared state - the choice of implementation and   *)
(* its tables - is filled in piece by piece by the first thread to load it *)
(* and is not written again while it stays loaded.  A call reads all of it,*)
(* piece by piece, and keeps its own working state to itself.              *)
(*                                                                         *)
(* Discipline says how the filling is guarded:                             *)
(*   "once"      the others wait until it is complete (what is wanted)     *)
(*   "flagfirst" the flag is raised before the filling: the others go on   *)
(*   "always"    every load fills it again                                 *)
(* and Scratch whether calls work in memory of their own or share it       *)
(* ("own", "shared"); only "once" with "own" satisfies Alone.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Args, Pieces, MaxCalls, Discipline, Scratch, None
VARIABLES phase,      \* of each thread: "new" "opening" "filling" "ready" "calling" "ended"
          init,       \* "no" "busy" "done"
          piece,      \* of each piece of the shared state: "unset" "torn" "set"
          fillers,    \* how much each filling thread has written
          arg, seen, scratch, shared, returned
vars == <<phase, init, piece, fillers, arg, seen, scratch, shared, returned>>
F(a) == <<a>>                                  \* what the call with argument a yields when made alone
Bad  == <<None>>

Init == /\ phase = [t \in Threads |-> "new"] /\ init = "no" /\ piece = [i \in 1..Pieces |-> "unset"]
        /\ fillers = [t \in Threads |-> 0] /\ arg = [t \in Threads |-> None] /\ seen = [t \in Threads |-> 0]
        /\ scratch = [t \in Threads |-> None] /\ shared = None /\ returned = {}
Loaded == { t \in Threads : phase[t] \in {"opening", "filling", "ready", "calling"} }

Open(t) == /\ phase[t] = "new" /\ phase' = [phase EXCEPT ![t] = "opening"]
           /\ UNCHANGED <<init, piece, fillers, arg, seen, scratch, shared, returned>>
Fill(t) == /\ phase[t] = "opening" /\ (init = "no" \/ (Discipline = "always" /\ init = "done"))
           /\ init' = (IF Discipline = "flagfirst" THEN "done" ELSE "busy")
           /\ phase' = [phase EXCEPT ![t] = "filling"] /\ fillers' = [fillers EXCEPT ![t] = 0]
           /\ UNCHANGED <<piece, arg, seen, scratch, shared, returned>>
Write(t) == /\ phase[t] = "filling" /\ fillers[t] < 2 * Pieces
            /\ fillers' = [fillers EXCEPT ![t] = @ + 1]
            /\ piece' = [piece EXCEPT ![fillers[t] \div 2 + 1] = IF fillers[t] % 2 = 0 THEN "torn" ELSE "set"]
            /\ UNCHANGED <<phase, init, arg, seen, scratch, shared, returned>>
Filled(t) == /\ phase[t] = "filling" /\ fillers[t] = 2 * Pieces
             /\ init' = "done" /\ phase' = [phase EXCEPT ![t] = "ready"]
             /\ UNCHANGED <<piece, fillers, arg, seen, scratch, shared, returned>>
Skip(t) == /\ phase[t] = "opening" /\ init = "done" /\ Discipline # "always"
           /\ phase' = [phase EXCEPT ![t] = "ready"]
           /\ UNCHANGED <<init, piece, fillers, arg, seen, scratch, shared, returned>>
Call(t, a) == /\ phase[t] = "ready" /\ Cardinality({ r \in returned : r.t = t }) < MaxCalls
              /\ phase' = [phase EXCEPT ![t] = "calling"] /\ arg' = [arg EXCEPT ![t] = a] /\ seen' = [seen EXCEPT ![t] = 0]
              /\ scratch' = [scratch EXCEPT ![t] = a] /\ shared' = a
              /\ UNCHANGED <<init, piece, fillers, returned>>
Use(t) == /\ phase[t] = "calling" /\ seen[t] < Pieces
          /\ seen' = [seen EXCEPT ![t] = @ + 1]
          /\ scratch' = (IF piece[seen[t] + 1] = "set" THEN scratch ELSE [scratch EXCEPT ![t] = None])
          /\ UNCHANGED <<phase, init, piece, fillers, arg, shared, returned>>
Return(t) == /\ phase[t] = "calling" /\ seen[t] = Pieces
             /\ LET w == IF Scratch = "shared" /\ scratch[t] # None THEN shared ELSE scratch[t] IN
                returned' = returned \cup {[t |-> t, k |-> Cardinality({ r \in returned : r.t = t }), a |-> arg[t], v |-> IF w = None THEN Bad ELSE F(w)]}
             /\ phase' = [phase EXCEPT ![t] = "ready"]
             /\ UNCHANGED <<init, piece, fillers, arg, seen, scratch, shared>>
(* a thread ends between calls (also one that never loaded); with the last one the library goes, and its state *)
End(t) == /\ phase[t] \in {"new", "ready"}
          /\ phase' = [phase EXCEPT ![t] = "ended"]
          /\ IF Loaded \ {t} = {} THEN init' = "no" /\ piece' = [i \in 1..Pieces |-> "unset"] ELSE UNCHANGED <<init, piece>>
          /\ UNCHANGED <<fillers, arg, seen, scratch, shared, returned>>
Step(t) == Open(t) \/ Fill(t) \/ Write(t) \/ Filled(t) \/ Skip(t) \/ (\E a \in Args : Call(t, a)) \/ Use(t) \/ Return(t) \/ End(t)
Next == \E t \in Threads : Step(t)
Finish(t) == Fill(t) \/ Write(t) \/ Filled(t) \/ Skip(t) \/ Use(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Finish(t))

Alone == \A r \in returned : r.v = F(r.a)
Complete == \A t \in Threads : phase[t] = "calling" => \A i \in 1..Pieces : piece[i] = "set"
NotRewritten == [][ (\E t \in Threads : phase[t] \in {"ready", "calling"} /\ phase'[t] \in {"ready", "calling"}) => piece' = piece ]_vars
Stays == [][ returned \subseteq returned' ]_vars
Progress == \A t \in Threads : (phase[t] = "calling" ~> phase[t] # "calling") /\ (phase[t] = "opening" ~> phase[t] \in {"ready", "calling", "ended"})
=============================================================================
