---------------------------- MODULE TraceWorkers ----------------------------
(***************************************************************************)
(* Judges recorded schedules of threads (or contexts) that load the        *)
(* library, call it and end, against Workers; and single calls against     *)
(* what they yield when made alone; and what becomes of results, against   *)
(* Results.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* the phases of Workers, as far as they can be seen from outside: a step is possible in a phase and leads to another *)
Moves == [ new |-> [load |-> "opening", end |-> "ended"], opening |-> [loaded |-> "ready", held |-> "opening", waits |-> "opening", call |-> "calling", end |-> "ended"],
           ready |-> [call |-> "calling", end |-> "ended", waits |-> "ready"], calling |-> [return |-> "ready", held |-> "calling", waits |-> "calling", end |-> "ended"], ended |-> [none |-> "ended"] ]
Phase(ph, t) == IF t \in DOMAIN ph THEN ph[t] ELSE "new"
StepOf(acc, s) ==
    IF ~acc.ok THEN acc
    ELSE LET m == Moves[Phase(acc.ph, s.t)] IN
         IF s.a \notin DOMAIN m THEN [acc EXCEPT !.ok = FALSE]
         ELSE IF s.a = "return" /\ ~s.same THEN [acc EXCEPT !.ok = FALSE]
         ELSE [acc EXCEPT !.ph = (s.t :> m[s.a]) @@ acc.ph]
ScheduleOk(e) == FoldLeft(StepOf, [ok |-> TRUE, ph |-> (0 :> "ended")], e.steps).ok

(* a caller holding on to results, as in Results: held maps those it has not altered to what they were when returned, and
   known maps calls to what they return *)
HeldStep(acc, s) ==
    IF ~acc.ok THEN acc
    ELSE CASE s.a = "return" -> [ok |-> s.call \in DOMAIN acc.known => acc.known[s.call] = s.v,
                                 held |-> (s.h :> s.v) @@ acc.held, known |-> (s.call :> s.v) @@ acc.known]
           [] s.a = "alter"  -> [acc EXCEPT !.held = [h \in DOMAIN acc.held \ {s.h} |-> acc.held[h]]]
           [] s.a = "look"   -> [acc EXCEPT !.ok = (s.h \in DOMAIN acc.held => acc.held[s.h] = s.v)]
HeldOk(e) == FoldLeft(HeldStep, [ok |-> TRUE, held |-> <<>>, known |-> <<>>], e.steps).ok

Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "alone" -> e.out = e.alone
      [] e.op = "schedule" -> ScheduleOk(e)
      [] e.op = "held" -> HeldOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
