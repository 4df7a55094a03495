------------------------------ MODULE GenMulti ------------------------------
(* Exports every bounded behaviour of the multi_post machine (verdicts and states; contents are up to the driver). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
NoCrc3(a, b, n) == <<0, 0>>
NoCrc1(s) == <<0, 0>>
LOCAL A == INSTANCE Article WITH CrcOf <- NoCrc1, CrcJoin <- NoCrc3, CrcText <- NoCrc1
Lens == <<0, 1, 2, 3, 5>>
(* tree of calls: [l: length, v: verdict, p: part, q: pos (digits), n: following calls] *)
RECURSIVE Tree(_, _, _)
Tree(cfg, st, depth) ==
    IF depth = 0 THEN <<>>
    ELSE [i \in 1..Len(Lens) |->
            LET s2 == A!After(cfg, st, A!Dec(Lens[i]), <<0, 0>>)
            IN  [l |-> Lens[i], v |-> A!Verdict(cfg, st, A!Dec(Lens[i])), p |-> s2.part, q |-> s2.pos, n |-> Tree(cfg, s2, depth - 1)]]
Depth == atoi(IOEnv.DEPTH)
Roots == [k \in 1..20 |-> LET p == (k - 1) \div 5  s == (k - 1) % 5  cfg == [parts |-> p, size |-> A!Dec(s), ls |-> 3]
                          IN  [parts |-> p, size |-> s, n |-> Tree(cfg, A!Start0(<<0, 0>>), Depth)]]
ASSUME JsonSerialize(IOEnv.OUT, Roots)
=============================================================================
