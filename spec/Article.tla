------------------------------- MODULE Article -------------------------------
(***************************************************************************)
(* Articles as post and multi_post write them, and the multi_post machine. *)
(* Strings are sequences of UTF-16 code units; articles are byte sequences.*)
(***************************************************************************)
EXTENDS Encoder, Digits
CONSTANTS CrcOf(_), CrcJoin(_, _, _), CrcText(_)   \* CRC of a byte sequence; of a concatenation given both CRCs and the second length (digits); as 8 hex digits

(* file names *)
Unwanted == {NUL, LF, CR}
CleanName(s) == LET t == SelectSeq(s, LAMBDA u : u \notin Unwanted) IN IF Len(t) > 256 THEN SubSeq(t, 1, 256) ELSE t

Utf8Of(cp) == CASE cp < 128 -> <<cp>>
                [] cp >= 128 /\ cp < 2048 -> <<192 + cp \div 64, 128 + (cp % 64)>>
                [] cp >= 2048 /\ cp < 65536 -> <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
                [] OTHER -> <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
IsHi(u) == u >= 55296 /\ u <= 56319
IsLo(u) == u >= 56320 /\ u <= 57343
Utf8(s) == FoldLeftDomain(LAMBDA a, i :
              a \o (IF IsHi(s[i]) /\ i < Len(s) /\ IsLo(s[i+1]) THEN Utf8Of(65536 + (s[i] - 55296) * 1024 + (s[i+1] - 56320))
                    ELSE IF IsLo(s[i]) /\ i > 1 /\ IsHi(s[i-1]) THEN <<>>
                    ELSE IF IsHi(s[i]) \/ IsLo(s[i]) THEN <<239, 191, 189>>
                    ELSE Utf8Of(s[i])), <<>>, s)
EncodeText(enc, s) == IF enc = "utf8" THEN Utf8(s) ELSE s      \* latin1: names within 0..255 only
NameBytes(enc, name) == EncodeText(enc, CleanName(name))

(* header fragments *)
Str_ybegin == <<61,121,98,101,103,105,110>>            \* =ybegin
Str_ypart  == <<61,121,112,97,114,116>>                \* =ypart
Str_yend   == <<61,121,101,110,100>>                   \* =yend
Str_line   == <<32,108,105,110,101,61>>                \* _line=
Str_size   == <<32,115,105,122,101,61>>                \* _size=
Str_name   == <<32,110,97,109,101,61>>                 \* _name=
Str_part   == <<32,112,97,114,116,61>>                 \* _part=
Str_total  == <<32,116,111,116,97,108,61>>             \* _total=
Str_begin  == <<32,98,101,103,105,110,61>>             \* _begin=
Str_end    == <<32,101,110,100,61>>                    \* _end=
Str_pcrc   == <<32,112,99,114,99,51,50,61>>            \* _pcrc32=
Str_crc    == <<32,99,114,99,51,50,61>>                \* _crc32=
N(n) == Text(Dec(n))

(* Article = Head \o encoded data \o Foot.  Lengths and positions are in decimal digits: they may exceed TLC's integers. *)
SingleHead(enc, name, ls, sizeText) == Str_ybegin \o Str_line \o N(ls) \o Str_size \o sizeText \o Str_name \o NameBytes(enc, name) \o CRLF
SingleFoot(len, crc) == CRLF \o Str_yend \o Str_size \o Text(len) \o Str_crc \o CrcText(crc)
PartHead(enc, name, ls, sizeText, part, parts, pos, len) ==
    Str_ybegin \o Str_part \o N(part) \o Str_total \o N(parts) \o Str_line \o N(ls) \o Str_size \o sizeText \o Str_name \o NameBytes(enc, name) \o CRLF
    \o Str_ypart \o Str_begin \o Text(Add(pos, <<1>>)) \o Str_end \o Text(Add(pos, len)) \o CRLF
PartFoot(len, part, pcrc, last, fcrc) ==
    CRLF \o Str_yend \o Str_size \o Text(len) \o Str_part \o N(part) \o Str_pcrc \o CrcText(pcrc) \o (IF last THEN Str_crc \o CrcText(fcrc) ELSE <<>>)

-----------------------------------------------------------------------------
(* The multi_post machine.  cfg: parts, size (decimal digits).  State: part, pos (digits), crc of what has been accepted. *)
Start0(zero) == [part |-> 0, pos |-> <<0>>, crc |-> zero]
Parts(cfg)  == IF cfg.parts <= 1 THEN 1 ELSE cfg.parts
Verdict(cfg, st, len) ==
    CASE st.part >= Parts(cfg) -> "exhausted"
      [] st.part < Parts(cfg) /\ Lt(cfg.size, Add(st.pos, len)) -> "toolong"
      [] st.part + 1 = Parts(cfg) /\ Add(st.pos, len) # cfg.size -> "wrongtotal"
      [] OTHER -> "ok"
After(cfg, st, len, dcrc) ==
    IF Verdict(cfg, st, len) # "ok" THEN st
    ELSE [part |-> st.part + 1, pos |-> Add(st.pos, len), crc |-> CrcJoin(st.crc, dcrc, len)]
(* a call that would be accepted, but for which there is no memory: an error, as if not made *)
Starved(st) == st
HeadFor(enc, name, cfg, st, len) ==
    IF cfg.parts <= 1 THEN SingleHead(enc, name, cfg.ls, Text(cfg.size))
    ELSE PartHead(enc, name, cfg.ls, Text(cfg.size), st.part + 1, cfg.parts, st.pos, len)
FootFor(cfg, st, len, dcrc) ==
    IF cfg.parts <= 1 THEN SingleFoot(len, dcrc)
    ELSE PartFoot(len, st.part + 1, dcrc, st.part + 1 = cfg.parts, CrcJoin(st.crc, dcrc, len))

(* out = head \o (an encoding of data) \o foot *)
IsArticle(out, head, data, ls, foot) ==
    LET n == Len(out) - Len(head) - Len(foot)
    IN  n >= 0 /\ SubSeq(out, 1, Len(head)) = head /\ SubSeq(out, Len(head) + n + 1, Len(out)) = foot
        /\ IsEncodingOf(SubSeq(out, Len(head) + 1, Len(head) + n), data, ls, 0)
=============================================================================
