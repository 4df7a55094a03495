---------------------------- MODULE TraceDispatch ----------------------------
(* Judges which instruction-set extensions the library was seen to execute on a simulated processor. *)
EXTENDS Dispatch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == { s[i] : i \in 1..Len(s) }
Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "dispatch" -> Plausible(SetOf(e.cpu)) => Safe(SetOf(e.cpu), SetOf(e.executed))
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
