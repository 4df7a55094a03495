--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Exports the complete transition relations of the specification's        *)
(* machines as JSON, for the drivers that replay them against the code.    *)
(* Regenerated by every check run; nothing here is written by hand.        *)
(***************************************************************************)
EXTENDS Encoder, Decoder, TLC, Json, IOUtils
LOCAL INSTANCE Transport
R == INSTANCE Crc WITH HW <- 16, LW <- 16, PH <- 60856, PL <- 33568, BW <- 8

BL == INSTANCE Blocks

Bools == <<FALSE, TRUE>>
(* enc[first][last][final][byte] = characters; 1-based in TLA+, so index+1 *)
EncTab == [f \in 1..2 |-> [l \in 1..2 |-> [e \in 1..2 |-> [b \in 1..256 |-> Unit(b - 1, Bools[f], Bools[l], Bools[e])]]]]
StateSeq == <<"none", "eq", "cr", "crlf", "crlfdt", "crlfdtcr", "crlfeq">>
ModeSeq  == <<"plain", "raw", "chunk">>
(* dec[mode][state][byte] = <<out or -1, next state, end>> *)
EndNo(e) == CASE e = "no" -> 0 [] e = "control" -> 1 [] e = "article" -> 2
StNo(st) == CHOOSE i \in 0..6 : StateSeq[i + 1] = st
DecTab == [m \in 1..3 |-> [s \in 1..7 |->
             IF StateSeq[s] \in StatesOf(ModeSeq[m])
             THEN [b \in 1..256 |-> LET t == DecStep(ModeSeq[m], StateSeq[s], b - 1)
                                    IN  <<IF t.out = <<>> THEN -1 ELSE t.out[1], StNo(t.st), EndNo(t.end)>>]
             ELSE <<>>]]
Tables ==
  [ enc      |-> EncTab,
    linebreak |-> CRLF,
    full     |-> [ls \in 1..4 |-> [c \in 1..7 |-> Full(ls, c - 1)]],
    deflinesize |-> LineSize(0),
    dec      |-> DecTab,
    states   |-> StateSeq,
    start    |-> [m \in 1..3 |-> StNo(Start(ModeSeq[m]))],
    statestr |-> [s \in 1..7 |-> StateStr(StateSeq[s])],
    endstr   |-> <<EndStr("control"), EndStr("article")>>,
    \* inputs that tell the block design from defective ones: what precedes (as bytes) and what follows
    witness  |-> [b \in BL!Bugs |-> LET w == BL!Witness(b) IN [mode |-> w.mode, s |-> StateStr(w.st) \o w.s]],
    crc      |-> [b \in 1..256 |-> R!ByteStep(R!Zero, b - 1)],
    crcpoly  |-> R!Poly ]
ASSUME JsonSerialize(IOEnv.OUT, Tables)
ASSUME PrintT(<<"EXPORTED", Cardinality(DState)>>)
=============================================================================
