------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* Exhaustive check of the codec design over a small alphabet.             *)
(* State machine: an encoder fed arbitrary bytes, a transport monitor      *)
(* watching the characters it emits, and decoders of every mode consuming  *)
(* them (the dot-unstuffing ones through a dot-stuffing sender).           *)
(***************************************************************************)
EXTENDS Encoder, Decoder, TLC
LOCAL INSTANCE Transport

CONSTANTS MaxLen, MaxLs
(* unencoded bytes whose encodings are NUL LF CR = TAB SPACE . y A and an ordinary one *)
Alpha == {214, 224, 227, 19, 223, 246, 4, 79}

VARIABLES ls, col0, data, col, out, mon, dplain, draw, dchunk
vars == <<ls, col0, data, col, out, mon, dplain, draw, dchunk>>

DInit(mode) == [st |-> Start(mode), o |-> <<>>, end |-> "no", lastc |-> -1, last2 |-> -1]
(* feed characters to a decoder, dot-stuffing on the way if asked *)
Feed(mode, stuff, d, chars) ==
    FoldLeft(LAMBDA a, c :
        LET one(x, ch) == IF x.end # "no" THEN x
                          ELSE LET t == DecStep(mode, x.st, ch) IN [x EXCEPT !.st = t.st, !.o = @ \o t.out, !.end = t.end]
            dup == stuff /\ c = DOT /\ ((a.last2 = CR /\ a.lastc = LF) \/ a.lastc = -1)
            b   == IF dup THEN one(one(a, c), c) ELSE one(a, c)
        IN  [b EXCEPT !.last2 = a.lastc, !.lastc = c], d, chars)

Init == /\ ls \in 1..MaxLs /\ col0 \in 0..(ls - 1) /\ data = <<>> /\ col = col0 /\ out = <<>>
        /\ mon = MonInit(col0) /\ dplain = DInit("plain") /\ draw = DInit("raw") /\ dchunk = DInit("chunk")

Put(b) ==
    /\ Len(data) < MaxLen
    /\ LET s == EncStep(ls, col, b, FALSE) IN
       /\ col' = s.col /\ out' = out \o s.out
       /\ mon' = FoldLeft(LAMBDA m, c : MonStep(ls, m, c), mon, s.out)
       /\ dplain' = Feed("plain", FALSE, dplain, s.out)
       /\ draw' = Feed("raw", TRUE, draw, s.out)
       /\ dchunk' = Feed("chunk", TRUE, dchunk, s.out)
    /\ data' = Append(data, b)
    /\ UNCHANGED <<ls, col0>>

Next == \E b \in Alpha : Put(b)
Spec == Init /\ [][Next]_vars

(* what the finished encoding is: the same, except for a trailing blank *)
Finished == Encode(data, ls, col0)

TransportSafe == IsTransportSafe(Finished, ls, col0)
MonitorRuns   == mon.ok
PrefixAgrees  == IF out = <<>> \/ out[Len(out)] \notin Blank THEN Finished = out
                 ELSE Finished = SubSeq(out, 1, Len(out) - 1) \o <<EQ, out[Len(out)] + 64>>
RoundTripPlain == dplain.o = data /\ Decode("plain", Finished) = data
RoundTripRaw   == draw.o = data /\ Decode("raw", Stuff(Finished)) = data
RoundTripChunk == dchunk.o = data /\ dchunk.end = "no" /\ Decode("chunk", Stuff(Finished)) = data
(* only the very first character can need stuffing: no later line starts with a dot *)
StuffOnlyFirst == LET st == Stuff(Finished) IN st = Finished \/ (Finished[1] = DOT /\ st = <<DOT>> \o Finished)
JudgeAgrees    == IsEncodingOf(Finished, data, ls, col0)
JudgeStrict    == ~IsEncodingOf(Append(Finished, 65), data, ls, col0) /\ (data # <<>> => ~IsEncodingOf(SubSeq(Finished, 1, Len(Finished)-1), data, ls, col0))
(* sizes *)
MinBound == col0 = 0 /\ data # <<>> => Len(Finished) >= Len(data) + 2 * ((Len(data) - 1) \div ls)
MaxBound == Len(Finished) <= 2 * Len(data) + 2 + 2 * ((2 * Len(data)) \div ls)
ColBound == col <= ls + 1
=============================================================================
