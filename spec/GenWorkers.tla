----------------------------- MODULE GenWorkers -----------------------------
(***************************************************************************)
(* Exports schedules of Workers to be replayed: every order in which the   *)
(* visible steps of its threads can be taken (up to the threads' names).   *)
(* Steps given separately (load .. loaded, call .. return) overlap what    *)
(* comes between them.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Fine  == <<"load", "loaded", "call", "return", "end">>
Fine2 == <<"load", "loaded", "call", "return", "call", "return", "end">>
Whole == <<"load loaded", "call return", "end">>        \* nothing comes between
Late  == <<"load loaded", "call", "return", "end">>
RECURSIVE Orders(_, _)
Orders(scripts, at) ==     \* of what is left of the scripts
    LET N == Len(scripts)
        Can == { t \in 1..N : at[t] < Len(scripts[t]) /\ (at[t] = 0 => t = 1 \/ scripts[t - 1] # scripts[t] \/ at[t - 1] > 0) }
    IN  IF \A t \in 1..N : at[t] = Len(scripts[t]) THEN { <<>> }
        ELSE UNION { { <<[t |-> t, a |-> scripts[t][at[t] + 1]]>> \o r : r \in Orders(scripts, [at EXCEPT ![t] = @ + 1]) } : t \in Can }
All(scripts) == Orders(scripts, [t \in 1..Len(scripts) |-> 0])
Deep == IOEnv.DEPTH = "2"
Schedules == All(<<Fine, Fine>>) \cup All(<<Whole, Whole, Whole>>)
             \cup (IF Deep THEN All(<<Fine2, Fine2>>) \cup All(<<Late, Whole, Whole>>) ELSE {})
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Schedules))
=============================================================================
