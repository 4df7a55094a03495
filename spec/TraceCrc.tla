------------------------------ MODULE TraceCrc ------------------------------
(* Judges recorded executions of the crc32 functions. CRC values are <<hi, lo>>; exponents are sign + 16-bit limbs. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Json, IOUtils
R == INSTANCE Crc WITH HW <- 16, LW <- 16, PH <- 60856, PL <- 33568, BW <- 8
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == R!Table
(* R!Update in table form (MCCrc checks that they are the same) *)
Upd(crc, s) == R!Compl(FoldLeft(LAMBDA r, b : R!Plus(R!DropByte(r), Tab[(r[2] % 256) ^^ b]), R!Compl(crc), s))

Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "crc"      -> e.out = Upd(e.init, e.data)
      [] e.op = "pieces"   -> /\ e.outs[1] = Upd(e.init, e.pieces[1])
                              /\ \A i \in 2..Len(e.pieces) : e.outs[i] = Upd(e.outs[i-1], e.pieces[i])
                              /\ e.outs[Len(e.outs)] = Upd(e.init, FoldLeft(LAMBDA s, p : s \o p, <<>>, e.pieces))
                              /\ e.whole = e.outs[Len(e.outs)]
      \* a long message given as stretches of bytes, each followed by a number of zeroes
      [] e.op = "segments" -> e.out = FoldLeft(LAMBDA c, p : R!Zeroes(FALSE, p.zeros, Upd(c, p.data)), e.init, e.parts)
      [] e.op = "join"     -> /\ e.ca = Upd(R!Zero, e.a) /\ e.cb = Upd(R!Zero, e.b) /\ e.cab = Upd(e.ca, e.b)
                              /\ e.out = e.cab /\ e.out = R!Combine(e.ca, e.cb, e.n)
      [] e.op = "combine"  -> e.out = R!Combine(e.x, e.y, e.n)
      [] e.op = "zeroes"   -> e.out = R!Zeroes(e.neg, e.n, e.x)
      [] e.op = "shift"    -> e.out = R!ShiftBy(e.neg, e.n, e.x)
      [] e.op = "multiply" -> e.out = R!Mul(e.x, e.y)

Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
