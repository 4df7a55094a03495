----------------------------- MODULE TraceArch ------------------------------
(* Judges which instructions the library was seen to execute on a simulated system. *)
EXTENDS Arch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == { s[i] : i \in 1..Len(s) }
Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "arch" -> Plausible(e.arch, SetOf(e.f)) => Safe(e.arch, SetOf(e.f), SetOf(e.known), SetOf(e.executed))
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
