------------------------------ MODULE MCMulti ------------------------------
(***************************************************************************)
(* The multi_post machine under every history of calls, and what the       *)
(* articles it hands out say.  Reading the machine's articles back through *)
(* the Parser gives the file again.                                        *)
(***************************************************************************)
EXTENDS CrcTable, TLC
CONSTANTS MaxParts, MaxSize, MaxCalls, Lens
Tab == CRC_Tab
CrcOfBytes(s) == CRC_Update(Tab, CRC_Zero, s)
A == INSTANCE Article WITH CrcOf <- CrcOfBytes, CrcJoin <- CRC_JoinDec, CrcText <- CRC_Text
P == INSTANCE Parser WITH CrcOf <- CrcOfBytes, CrcText <- CRC_Text, White <- {9, 10, 11, 12, 13, 32}

(* contents whose encodings include an escaped NUL, a leading dot and an ordinary character *)
Byte(i) == <<4, 214, 65, 4, 19>>[(i % 5) + 1]
File(from, len) == [k \in 1..len |-> Byte(from + k - 1)]
FileName == <<97, 32, 61, 98>>       \* "a =b"

VARIABLES cfg, st, calls, accepted, last
vars == <<cfg, st, calls, accepted, last>>
Init == /\ cfg \in { [parts |-> p, size |-> A!Dec(s), ls |-> l] : p \in 0..MaxParts, s \in 0..MaxSize, l \in {1, 3} }
        /\ st = A!Start0(CRC_Zero) /\ calls = 0 /\ accepted = <<>> /\ last = [verdict |-> "none"]
Pos == CHOOSE k \in 0..MaxSize : A!Dec(k) = st.pos
Call(len) ==
    LET d == File(Pos, len)  v == A!Verdict(cfg, st, A!Dec(len))  dc == CrcOfBytes(d) IN
    /\ calls < MaxCalls
    /\ calls' = calls + 1
    /\ st' = A!After(cfg, st, A!Dec(len), dc)
    /\ last' = [verdict |-> v]
    /\ accepted' = IF v # "ok" THEN accepted
                   ELSE Append(accepted, [begin |-> Pos, len |-> len, art |->
                        A!HeadFor("utf8", FileName, cfg, st, A!Dec(len)) \o A!Encode(d, cfg.ls, 0) \o A!FootFor(cfg, st, A!Dec(len), dc) \o A!CRLF])
    /\ UNCHANGED cfg
NoMemory(len) ==
    /\ calls < MaxCalls /\ A!Verdict(cfg, st, A!Dec(len)) = "ok"
    /\ calls' = calls + 1 /\ st' = A!Starved(st) /\ last' = [verdict |-> "nomemory"] /\ UNCHANGED <<cfg, accepted>>
Next == \E len \in Lens : Call(len) \/ NoMemory(len)
Spec == Init /\ [][Next]_vars

Size == LET s == CHOOSE k \in 0..MaxSize : A!Dec(k) = cfg.size IN s
(* the accepted parts tile a prefix of the file, and all of it once every part has been made *)
Tiling == /\ st.part = Len(accepted) /\ st.part <= A!Parts(cfg)
          /\ \E k \in 0..Size : A!Dec(k) = st.pos
          /\ \A i \in 1..Len(accepted) : accepted[i].begin = FoldLeft(LAMBDA a, r : a + r.len, 0, SubSeq(accepted, 1, i - 1))
          /\ Pos = FoldLeft(LAMBDA a, r : a + r.len, 0, accepted)
          /\ st.part = A!Parts(cfg) => Pos = Size
CrcRight == st.crc = CrcOfBytes(File(0, Pos))
(* rejected exactly when accepting would break the tiling *)
RejectRight == \A len \in Lens :
    (A!Verdict(cfg, st, A!Dec(len)) = "ok") = (/\ st.part < A!Parts(cfg)
                                        /\ Pos + len <= Size
                                        /\ (st.part + 1 = A!Parts(cfg) => Pos + len = Size))
(* each article reads back, both as it is and dot-stuffed, to the part it carries, without warnings *)
ReadBack(r, p, len, begin, fin) ==
    /\ r.error = "" /\ r.must = <<>> /\ r.may = <<>>
    /\ r.data = File(begin, len)
    /\ r.crc = CrcOfBytes(r.data)
    /\ P!Val(r.props, P!T_begin, P!T_name) = FileName
    /\ P!Val(r.props, P!T_begin, P!T_size) = A!Text(cfg.size)
    /\ cfg.parts > 1 => /\ P!Val(r.props, P!T_begin, P!T_part) = A!N(p) /\ P!Val(r.props, P!T_begin, P!T_total) = A!N(cfg.parts)
                        /\ P!Val(r.props, P!T_part, P!T_begin) = A!N(begin + 1) /\ P!Val(r.props, P!T_part, P!T_end) = A!N(begin + len)
                        /\ P!Val(r.props, P!T_end, P!T_pcrc32) = CRC_Text(r.crc)
                        /\ P!Present(r.props, P!T_end, P!T_crc32) = fin
    /\ (cfg.parts <= 1 \/ fin) => P!Val(r.props, P!T_end, P!T_crc32) = CRC_Text(CrcOfBytes(File(0, begin + len)))
ReadsBack == last.verdict = "ok" =>
    LET i == Len(accepted)  x == accepted[i] IN
    x.len > 0 =>
    /\ ReadBack(P!Parse(x.art, FALSE), i, x.len, x.begin, i = A!Parts(cfg))
    /\ ReadBack(P!Parse(P!Stuff(x.art), TRUE), i, x.len, x.begin, i = A!Parts(cfg))
    /\ ReadBack(P!Parse(<<72, 105>> \o A!CRLF \o P!Stuff(x.art) \o <<46, 13, 10>>, TRUE), i, x.len, x.begin, i = A!Parts(cfg))
(* the pcrc32 values of the parts combine to the file's crc32 *)
CombineRight == FoldLeft(LAMBDA a, r : CRC_Join(a, CrcOfBytes(File(r.begin, r.len)), r.len), CRC_Zero, accepted) = st.crc
=============================================================================
