----------------------------- MODULE TraceLedger -----------------------------
(* Judges measurements of real rounds of calls, and real calls that could not get memory, against Ledger. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
L == INSTANCE Ledger WITH Threads <- {}, Blocks <- {}, Sizes <- {}, Total <- 0, Variant <- "right",
       call <- <<>>, own <- <<>>, size <- <<>>, held <- {}, ended <- {}, freed <- FALSE, thrown <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* rounds: inuse, heap and external: kinds of memory, in units of 16 bytes less a common base; per: blocks that a round would leave behind *)
RoundsOk(e) == \A s \in {e.inuse, e.heap, e.external} : Len(s) >= 4 /\ ~L!Leaks(s, e.per)
(* results held over collections, then dropped *)
HeldOk(e) == ~e.changed
(* memory cannot be had: the call throws an Error, no Buffer of the caller's changed, the same call works once memory can be had, and it does not cost memory *)
OomOk(e) == /\ e.starved => e.threw
            /\ e.threw => e.isError /\ e.untouched
            /\ e.afterwards
Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "rounds" -> RoundsOk(e)
      [] e.op = "held" -> HeldOk(e)
      [] e.op = "oom" -> OomOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
