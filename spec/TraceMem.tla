------------------------------ MODULE TraceMem ------------------------------
(* Judges recorded memory accesses, and recorded changes of memory, of real calls against Footprint. *)
EXTENDS Footprint, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

(* accesses: for each input [size, read, written]; for the output (if any) likewise; for each block the call allocated *)
AccessOk(e) ==
    /\ All(e.ins, LAMBDA x : MayRead(e.call, x.size, x.at, x.r) /\ (IF e.call.insitu THEN TRUE ELSE MayWriteInput(e.call, x.w)))
    /\ All(e.outs, LAMBDA x : (IF e.call.insitu THEN MayRead(e.call, x.size, x.at, x.r) ELSE MayReadOutput(e.call, x.r)) /\ MayWriteOutput(e.call, x.w))
    /\ All(e.blocks, LAMBDA x : MayTouchBlock(x.size, x.r) /\ MayTouchBlock(x.size, x.w))
(* changes observed from outside: the span of changed bytes around each Buffer, relative to its start *)
ChangeOk(e) ==
    /\ All(e.ins, LAMBDA x : MayWriteInput(e.call, x.w))
    /\ All(e.outs, LAMBDA x : MayWriteOutput(e.call, x.w))
(* a Buffer returned earlier: whether it still holds what it held when returned *)
RetainedOk(e) == ~e.changed

Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "access" -> AccessOk(e)
      [] e.op = "change" -> ChangeOk(e)
      [] e.op = "retained" -> RetainedOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
