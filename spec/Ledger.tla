------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Where memory goes.  A call takes a block of memory for what it will      *)
(* return (the worst case), fills it, cuts it down to what was produced     *)
(* and hands it over as a Buffer; it takes none when it is rejected, when   *)
(* there is nothing to work on or when the caller supplied the output, and  *)
(* gives it back itself when nothing was produced.  It fails, changing      *)
(* nothing, when the memory cannot be had.  Buffers are dropped by the      *)
(* program, then collected; threads end with all their Buffers.             *)
(*                                                                         *)
(* Variant: "right"; the others are defective and refuted:                  *)
(*   "zero"   a result of nothing forgets its block                         *)
(*   "reject" the block is taken before the arguments are checked           *)
(*   "nofail" failing to get memory goes unnoticed                          *)
(*   "twice"  an empty result is given back and also handed over            *)
(*   "thread" a thread that ends does not give back what it held            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Blocks, Sizes, Total, Variant
VARIABLES call,     \* of each thread: the call in progress
          own,      \* of each block: "free", or who has to give it back: <<"call", t>>, <<"buffer", t>>, "nobody"
          size,     \* of each block
          held,     \* blocks whose Buffer the program (thread) still refers to
          ended,    \* threads that have ended
          freed,    \* blocks given back while free already, or written although there is none
          thrown    \* the last outcome
vars == <<call, own, size, held, ended, freed, thrown>>
Free == <<"free", 0>>
Nobody == <<"nobody", 0>>
Idle == [at |-> "idle", n |-> 0, b |-> 0]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN size[b] + Sum(S \ {b})
InUse == { b \in Blocks : own[b] # Free }
Worst(n) == 2 * n
Init == /\ call = [t \in Threads |-> Idle] /\ own = [b \in Blocks |-> Free] /\ size = [b \in Blocks |-> 0]
        /\ held = {} /\ ended = {} /\ freed = FALSE /\ thrown = FALSE
Take(t, b, n, at) == /\ own' = [own EXCEPT ![b] = <<"call", t>>] /\ size' = [size EXCEPT ![b] = Worst(n)]
                     /\ call' = [call EXCEPT ![t] = [at |-> at, n |-> n, b |-> b]]
Fits(n) == Sum(InUse) + Worst(n) <= Total /\ \E b \in Blocks : own[b] = Free
Begin(t) ==
    /\ t \notin ended /\ call[t].at = "idle"
    /\ \E n \in Sizes \cup {0} :
         \/ n > 0 /\ Fits(n) /\ (\E b \in Blocks : own[b] = Free /\ Take(t, b, n, "filling")) /\ thrown' = FALSE /\ UNCHANGED freed
         \/ n > 0 /\ ~Fits(n) /\ thrown' = (Variant # "nofail") /\ freed' = (freed \/ Variant = "nofail") /\ UNCHANGED <<call, own, size>>
         \/ thrown' = TRUE /\ UNCHANGED freed                                                   \* rejected
            /\ IF Variant = "reject" /\ n > 0 /\ Fits(n) THEN \E b \in Blocks : own[b] = Free /\ own' = [own EXCEPT ![b] = Nobody] /\ size' = [size EXCEPT ![b] = Worst(n)] /\ UNCHANGED call
               ELSE UNCHANGED <<call, own, size>>
         \/ thrown' = FALSE /\ UNCHANGED <<call, own, size, freed>>                              \* nothing to do, or the output was supplied
    /\ UNCHANGED <<held, ended>>
Release(b) == own' = [own EXCEPT ![b] = Free]
Return(t) ==
    /\ call[t].at = "filling" /\ call' = [call EXCEPT ![t] = Idle] /\ thrown' = FALSE /\ UNCHANGED ended
    /\ LET b == call[t].b IN
       \/ \E m \in 1..Worst(call[t].n) : size' = [size EXCEPT ![b] = m] /\ own' = [own EXCEPT ![b] = <<"buffer", t>>] /\ held' = held \cup {b} /\ UNCHANGED freed
       \/ /\ size' = [size EXCEPT ![b] = 0] /\ UNCHANGED freed
          /\ CASE Variant = "zero" -> own' = [own EXCEPT ![b] = Nobody] /\ UNCHANGED held
               [] Variant = "twice" -> own' = [own EXCEPT ![b] = Free] /\ held' = held \cup {b}
               [] OTHER -> Release(b) /\ UNCHANGED held
Drop(b) == b \in held /\ held' = held \ {b} /\ UNCHANGED <<call, own, size, ended, freed, thrown>>
Collect(b) == /\ b \notin held /\ (own[b] \in { <<"buffer", t>> : t \in Threads })
              /\ Release(b) /\ UNCHANGED <<call, size, held, ended, freed, thrown>>
(* a Buffer handed over although its block is free already: collecting it gives back something else's block, or nothing's *)
CollectStray(b) == /\ b \in held /\ own[b] = Free /\ held' = held \ {b} /\ freed' = TRUE /\ UNCHANGED <<call, own, size, ended, thrown>>
End(t) == /\ t \notin ended /\ call[t].at = "idle" /\ ended' = ended \cup {t}
          /\ own' = [b \in Blocks |-> IF own[b] = <<"buffer", t>> THEN (IF Variant = "thread" THEN Nobody ELSE Free) ELSE own[b]]
          /\ held' = { b \in held : own[b] # <<"buffer", t>> } /\ UNCHANGED <<call, size, freed, thrown>>
Next == \/ \E t \in Threads : Begin(t) \/ Return(t) \/ End(t)
        \/ \E b \in Blocks : Drop(b) \/ Collect(b) \/ CollectStray(b)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Return(t)) /\ \A b \in Blocks : WF_vars(Collect(b))

(* nothing is in use but what a call in progress or a Buffer accounts for *)
Accounted == \A b \in Blocks : own[b] # Nobody
OnceOnly == ~freed /\ \A b \in held : own[b] # Free
Bounded == Sum(InUse) <= Total
HeldStays == [][\A b \in held \cap held' : own[b] = own'[b] /\ size[b] = size'[b]]_vars
(* what is neither held nor being produced is given back in the end *)
GivenBack == \A b \in Blocks : (own[b] # Free /\ b \notin held) ~> (own[b] = Free \/ b \in held)

(***************************************************************************)
(* Measured from outside: memory in use after each of several equal rounds  *)
(* of n calls whose results have all been dropped and collected.  The       *)
(* machine says equal amounts; measuring a real process has noise, but a    *)
(* block that nobody gives back costs at least Least bytes.  Leaking is     *)
(* growing by that much for each of the `per` blocks in every round.        *)
(***************************************************************************)
Least == 16
(* inuse in units of Least bytes *)
Leaks(inuse, per) == \A i \in 1..(IF inuse = <<>> THEN 0 ELSE Cardinality(DOMAIN inuse) - 1) : inuse[i + 1] - inuse[i] >= per
=============================================================================
