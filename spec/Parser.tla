------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* from_post: what an article says, and what is wrong with it.             *)
(* Articles are byte sequences, offsets are 0-based as in the API; text is *)
(* handled as its bytes (latin1, or UTF-8 with no other white space).      *)
(***************************************************************************)
EXTENDS Decoder, Digits
CONSTANTS CrcOf(_), CrcText(_), White      \* White: the bytes trimmed from header lines

None == -1
Min2(S) == CHOOSE x \in S : \A z \in S : x <= z
(* the first and the last i in lo..hi with P(i) (None without one); written so that TLC takes linear time *)
FirstIn(lo, hi, P(_)) == IF \E i \in lo..hi : P(i) THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in lo..(i-1) : ~P(j) ELSE None
LastIn(lo, hi, P(_))  == IF \E i \in lo..hi : P(i) THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in (i+1)..hi : ~P(j) ELSE None
Matches(a, i, p) == i + Len(p) <= Len(a) /\ \A k \in 1..Len(p) : a[i + k] = p[k]      \* p at offset i (0-based)
Find(a, p, from) == FirstIn(from, Len(a) - Len(p), LAMBDA i : Matches(a, i, p))
FindRev(a, p, from) == LastIn(from, Len(a) - Len(p), LAMBDA i : Matches(a, i, p))
Slice(a, i, j) == SubSeq(a, i + 1, j)                                                 \* offsets i <= .. < j

Latin1White == {9, 10, 11, 12, 13, 32, 160}
AsciiWhite == Latin1White \ {160}
Trim(s) == IF \A i \in 1..Len(s) : s[i] \in White THEN <<>>
           ELSE SubSeq(s, FirstIn(1, Len(s), LAMBDA i : s[i] \notin White), LastIn(1, Len(s), LAMBDA i : s[i] \notin White))

YBegin == <<61,121,98,101,103,105,110,32>>      \* "=ybegin "
YEnd   == <<61,121,101,110,100,32>>             \* "=yend "
EqY    == <<61,121>>
T_begin == <<98,101,103,105,110>>  T_part == <<112,97,114,116>>  T_end == <<101,110,100>>
T_line == <<108,105,110,101>>  T_size == <<115,105,122,101>>  T_name == <<110,97,109,101>>  T_total == <<116,111,116,97,108>>
T_pcrc32 == <<112,99,114,99,51,50>>  T_crc32 == <<99,114,99,51,50>>

-----------------------------------------------------------------------------
(* header lines: tag and key=value properties *)
Letter(c) == (c >= 97 /\ c <= 122) \/ c = 95
Word(c)   == Letter(c) \/ (c >= 48 /\ c <= 57)
(* first key= in s: [at |-> 0-based start of the key, eq |-> offset of its '='], or at = None *)
FindKey(s) ==
    LET before(e)   == LastIn(1, e - 1, LAMBDA i : ~Word(s[i]))              \* where the run of word characters left of e stops
        keyStart(e) == FirstIn(IF before(e) = None THEN 1 ELSE before(e) + 1, e - 1, LAMBDA i : Letter(s[i]))
        e == FirstIn(1, Len(s), LAMBDA i : s[i] = EQ /\ i > 1 /\ Word(s[i-1]) /\ keyStart(i) # None)
    IN  IF e = None THEN [at |-> None, eq |-> None] ELSE [at |-> keyStart(e) - 1, eq |-> e - 1]

RECURSIVE ParseProps(_, _, _, _)
ParseProps(tag, s, props, warn) ==      \* props: sequence of <<key, value>>, later ones override
    LET k == FindKey(s) IN
    IF k.at = None THEN [props |-> props, warn |-> warn \o (IF s # <<>> THEN <<"ignored_line_data">> ELSE <<>>)]
    ELSE LET key  == Slice(s, k.at, k.eq)
             rest == Slice(s, k.eq + 1, Len(s))
             whole == tag = T_begin /\ key = T_name
             sp   == Find(rest, <<SPACE>>, 0)
             val  == IF whole \/ sp = None THEN rest ELSE Slice(rest, 0, sp)
             left == IF whole \/ sp = None THEN <<>> ELSE Slice(rest, sp + 1, Len(rest))
             dup  == \E i \in 1..Len(props) : props[i][1] = key
         IN  ParseProps(tag, left, SelectSeq(props, LAMBDA p : p[1] # key) \o <<<<key, val>>>>,
                 warn \o (IF k.at # 0 THEN <<"ignored_line_data">> ELSE <<>>) \o (IF dup THEN <<"duplicate_property">> ELSE <<>>))

ParseLine(line) ==                       \* a trimmed line starting with =y
    LET t  == Slice(line, 2, Len(line))
        sp == Find(t, <<SPACE>>, 0)
        tag == IF sp = None THEN t ELSE Slice(t, 0, sp)
        r  == ParseProps(tag, Trim(IF sp = None THEN <<>> ELSE Slice(t, sp + 1, Len(t))), <<>>, <<>>)
    IN  [tag |-> tag, props |-> r.props, warn |-> r.warn]

(* ydata: sequence of <<tag, props>>, later ones override *)
ParseLines(lines, y0, w0) ==
    FoldLeft(LAMBDA a, l : LET p == ParseLine(l) IN
                 [y |-> SelectSeq(a.y, LAMBDA t : t[1] # p.tag) \o <<<<p.tag, p.props>>>>,
                  w |-> a.w \o p.warn \o (IF \E i \in 1..Len(a.y) : a.y[i][1] = p.tag THEN <<"duplicate_line">> ELSE <<>>)],
             [y |-> y0, w |-> w0], lines)

HasTag(y, tag) == \E i \in 1..Len(y) : y[i][1] = tag
PropsOf(y, tag) == IF HasTag(y, tag) THEN y[CHOOSE i \in 1..Len(y) : y[i][1] = tag][2] ELSE <<>>
HasProp(y, tag, key) == \E i \in 1..Len(PropsOf(y, tag)) : PropsOf(y, tag)[i][1] = key
Val(y, tag, key) == LET P == PropsOf(y, tag) IN IF HasProp(y, tag, key) THEN P[CHOOSE i \in 1..Len(P) : P[i][1] = key][2] ELSE <<>>
Present(y, tag, key) == Val(y, tag, key) # <<>>

-----------------------------------------------------------------------------
(* where things are *)
RECURSIVE HeaderLines(_, _, _, _)
HeaderLines(a, sp, from, lines) ==
    LET p == Find(a, CRLF, from) IN
    IF p = None THEN [kind |-> "open"]
    ELSE LET line == Trim(Slice(a, sp, p)) IN
         IF Matches(line, 0, YEnd) THEN [kind |-> "empty", lines |-> Append(lines, line), at |-> p + 2]
         ELSE IF ~Matches(a, p + 2, EqY) THEN [kind |-> "data", lines |-> Append(lines, line), at |-> p + 2]
         ELSE HeaderLines(a, p + 2, p + 2, Append(lines, line))

Err(code) == [error |-> code]

-----------------------------------------------------------------------------
(* values *)
AllDigits(v) == v # <<>> /\ \A i \in 1..Len(v) : v[i] >= 48 /\ v[i] <= 57
Canonical(v) == AllDigits(v) /\ Len(v) <= 15 /\ (Len(v) = 1 \/ v[1] # 48)
Num(v) == [i \in 1..Len(v) |-> v[i] - 48]                 \* Digits value of a canonical one
Hex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
ValidCrc(v) == Len(v) = 8 /\ \A i \in 1..8 : Hex(v[i])
Lower(v) == [i \in 1..Len(v) |-> IF v[i] >= 65 /\ v[i] <= 90 THEN v[i] + 32 ELSE v[i]]
W(cond, code) == IF cond THEN <<code>> ELSE <<>>

NumChecks == << <<T_begin, T_line, "line">>, <<T_begin, T_total, "total">>, <<T_begin, T_part, "part">>, <<T_begin, T_size, "size">>,
                <<T_part, T_begin, "begin">>, <<T_part, T_end, "end">>, <<T_end, T_size, "size">>, <<T_end, T_part, "part">> >>
InvalidNames == [line |-> "invalid_prop_line", total |-> "invalid_prop_total", part |-> "invalid_prop_part", size |-> "invalid_prop_size",
                 begin |-> "invalid_prop_begin", end |-> "invalid_prop_end"]
ZeroNames == [line |-> "zero_prop_line", total |-> "zero_prop_total", part |-> "zero_prop_part", size |-> "zero_prop_size",
              begin |-> "zero_prop_begin", end |-> "zero_prop_end"]
AllZero(v) == AllDigits(v) /\ \A i \in 1..Len(v) : v[i] = 48

(* Warnings come as [must, may]: those that have to be reported, and those about which a value that is not a
   canonical number leaves the outcome open. *)
FieldWarnings(y) ==
    FoldLeft(LAMBDA a, f :
        LET v == Val(y, f[1], f[2]) IN
        IF v = <<>> THEN a
        ELSE IF ~AllDigits(v) THEN [a EXCEPT !.must = Append(@, InvalidNames[f[3]])]
        ELSE IF v = <<48>> /\ f[3] # "size" THEN [a EXCEPT !.must = Append(@, ZeroNames[f[3]])]
        ELSE IF AllZero(v) /\ f[3] # "size" THEN [a EXCEPT !.may = Append(@, ZeroNames[f[3]])]
        ELSE a, [must |-> <<>>, may |-> <<>>], NumChecks)

Odd(y, fs) == \E i \in 1..Len(fs) : LET v == Val(y, fs[i][1], fs[i][2]) IN v # <<>> /\ ~Canonical(v)
Chain(odd, sure, open) == IF odd THEN [must |-> <<>>, may |-> open] ELSE [must |-> sure, may |-> <<>>]

PartChain(y) ==
    LET bp == Val(y, T_begin, T_part)  ep == Val(y, T_end, T_part)  bt == Val(y, T_begin, T_total)
    IN  Chain(Odd(y, <<<<T_begin, T_part>>, <<T_end, T_part>>, <<T_begin, T_total>>>>),
              IF bp # <<>> /\ ep # <<>> /\ bp # ep THEN <<"part_number_mismatch">>
              ELSE W(bt # <<>> /\ ((bp # <<>> /\ Lt(Num(bt), Num(bp))) \/ (ep # <<>> /\ Lt(Num(bt), Num(ep)))), "part_number_exceeds_total"),
              <<"part_number_mismatch", "part_number_exceeds_total">>)
RangeChain(y) ==
    LET pb == Val(y, T_part, T_begin)  pe == Val(y, T_part, T_end)  es == Val(y, T_end, T_size)  bs == Val(y, T_begin, T_size)
        more(v) == v # <<>> /\ Lt(<<1>>, Num(v))
    IN  IF pb # <<>> /\ pe # <<>>
        THEN Chain(Odd(y, <<<<T_part, T_begin>>, <<T_part, T_end>>, <<T_end, T_size>>, <<T_begin, T_size>>>>),
                   IF Lt(Num(pe), Num(pb)) THEN <<"invalid_part_range">>
                   ELSE IF Add(Num(pe), <<1>>) # Add(Num(es), Num(pb)) THEN <<"size_mismatch_part_range">>
                   ELSE W(Lt(Num(bs), Num(pe)), "part_range_exceeds_size"),
                   <<"invalid_part_range", "size_mismatch_part_range", "part_range_exceeds_size">>)
        ELSE Chain(Odd(y, <<<<T_begin, T_total>>, <<T_begin, T_part>>, <<T_end, T_part>>>>),
                   W(more(Val(y, T_begin, T_total)) \/ more(Val(y, T_begin, T_part)) \/ more(Val(y, T_end, T_part)), "missing_part_range"),
                   <<"missing_part_range">>)
CrcFormat(y) == W(Present(y, T_end, T_pcrc32) /\ ~ValidCrc(Val(y, T_end, T_pcrc32)), "invalid_prop_pcrc32")
                \o W(Present(y, T_end, T_crc32) /\ ~ValidCrc(Val(y, T_end, T_crc32)), "invalid_prop_crc32")
SizeChain(y) ==
    LET bs == Val(y, T_begin, T_size)  es == Val(y, T_end, T_size)
    IN  Chain(Odd(y, <<<<T_begin, T_size>>, <<T_end, T_size>>>>),
              W((~Present(y, T_begin, T_part) /\ bs # es) \/ Lt(Num(bs), Num(es)), "size_mismatch"), <<"size_mismatch">>)
DataChecks(y, len, crcText) ==
    LET es == Val(y, T_end, T_size)  pc == Val(y, T_end, T_pcrc32)  fc == Val(y, T_end, T_crc32)
        crcW(v, on, code) == IF ~on \/ v = <<>> THEN [must |-> <<>>, may |-> <<>>]
                             ELSE IF ~ValidCrc(v) THEN [must |-> <<>>, may |-> <<code>>]
                             ELSE [must |-> W(Lower(v) # crcText, code), may |-> <<>>]
        a == Chain(Odd(y, <<<<T_end, T_size>>>>), W(es # <<>> /\ Num(es) # Dec(len), "data_size_mismatch"), <<"data_size_mismatch">>)
        b == crcW(pc, TRUE, "pcrc32_mismatch")
        c == crcW(fc, ~HasTag(y, T_part), "crc32_mismatch")
    IN  [must |-> a.must \o b.must \o c.must, may |-> a.may \o b.may \o c.may]

-----------------------------------------------------------------------------
Finish(a, y, w, where, data) ==
    IF ~Present(y, T_begin, T_line) \/ ~Present(y, T_begin, T_size) \/ ~HasProp(y, T_begin, T_name) \/ ~Present(y, T_end, T_size)
    THEN Err("missing_required_properties")
    ELSE LET f == FieldWarnings(y)  p == PartChain(y)  r == RangeChain(y)  s == SizeChain(y)
             d == DataChecks(y, Len(data), CrcText(CrcOf(data)))
         IN  where @@ [error |-> "", props |-> y, data |-> data, crc |-> CrcOf(data),
                       must |-> w \o f.must \o p.must \o r.must \o CrcFormat(y) \o s.must \o d.must,
                       may  |-> f.may \o p.may \o r.may \o s.may \o d.may]

Parse(a, isRaw) ==
    LET first == Matches(a, 0, YBegin)
        found == Find(a, CRLF \o YBegin, 0)
        yStart == IF first THEN 0 ELSE found + 2
    IN  IF ~first /\ found = None THEN Err("no_start_found")
        ELSE LET h == HeaderLines(a, yStart, yStart + 8, <<>>) IN
        IF h.kind = "open" THEN Err("no_end_found")
        ELSE LET hp == ParseLines(h.lines, <<>>, <<>>) IN
        IF h.kind = "empty" THEN Finish(a, hp.y, hp.w, [yencStart |-> yStart, yencEnd |-> h.at, dataStart |-> None, dataEnd |-> None], <<>>)
        ELSE LET e == FindRev(a, CRLF \o YEnd, h.at) IN
        IF e = None THEN Err("no_end_found")
        ELSE LET p  == Find(a, CRLF, e + 8)
                 le == IF p = None THEN Len(a) ELSE p
                 ep == ParseLines(<<Trim(Slice(a, e + 2, le))>>, hp.y, hp.w \o W(p = None, "missing_yend_newline"))
             IN  Finish(a, ep.y, ep.w, [yencStart |-> yStart, yencEnd |-> IF p = None THEN Len(a) ELSE p + 2, dataStart |-> h.at, dataEnd |-> e],
                        Decode(IF isRaw THEN "raw" ELSE "plain", Slice(a, h.at, e)))

Count(s, x) == Len(SelectSeq(s, LAMBDA z : z = x))
Range2(s) == { s[i] : i \in 1..Len(s) }
WarningsOk(got, r) ==
    /\ \A c \in Range2(got) \cup Range2(r.must) : Count(r.must, c) <= Count(got, c) /\ Count(got, c) <= Count(r.must, c) + Count(r.may, c)
SameProps(p, q) == Len(p) = Len(q) /\ Range2(p) = Range2(q)
SameYdata(y, z) == Len(y) = Len(z) /\ \A i \in 1..Len(y) : \E j \in 1..Len(z) : y[i][1] = z[j][1] /\ SameProps(y[i][2], z[j][2])
=============================================================================
