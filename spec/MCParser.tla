------------------------------ MODULE MCParser ------------------------------
(* Articles built piece by piece out of the pieces that matter to from_post: at every point the parser has a
   defined answer, consistent with a declarative account of where things are. *)
EXTENDS CrcTable, TLC
CONSTANTS MaxPieces
Tab == CRC_Tab
CrcOfBytes(s) == CRC_Update(Tab, CRC_Zero, s)
P == INSTANCE Parser WITH CrcOf <- CrcOfBytes, CrcText <- CRC_Text, White <- {9, 10, 11, 12, 13, 32, 160}

Pieces == { P!YBegin,
            P!YBegin \o P!T_line \o <<61, 49, 32>> \o P!T_size \o <<61, 49, 32>> \o P!T_name \o <<61, 97>>,     \* =ybegin line=1 size=1 name=a
            P!CRLF, P!YEnd, P!YEnd \o P!T_size \o <<61, 49>>, <<61, 121, 120>>, <<107>>, <<46>> }
VARIABLES art, n
Init == art = <<>> /\ n = 0
Next == n < MaxPieces /\ n' = n + 1 /\ \E p \in Pieces : art' = art \o p
Spec == Init /\ [][Next]_<<art, n>>

R == P!Parse(art, TRUE)
LineAt(i, p) == P!Matches(art, i, p) /\ (i = 0 \/ (i >= 2 /\ P!Matches(art, i - 2, P!CRLF)))
Starts == { i \in 0..Len(art) : LineAt(i, P!YBegin) }
Codes == {"no_start_found", "no_end_found", "missing_required_properties"}
Total == R.error \in Codes \cup {""}
NoStart == (R.error = "no_start_found") = (Starts = {})
(* a result: the parts are in order, at line starts, and the data decodes as said *)
Placed == R.error = "" =>
    /\ R.yencStart = P!Min2(Starts)
    /\ R.yencEnd <= Len(art)
    /\ \/ /\ R.dataStart = P!None /\ R.dataEnd = P!None /\ R.data = <<>>
       \/ /\ R.yencStart < R.dataStart /\ R.dataStart <= R.dataEnd /\ R.dataEnd < R.yencEnd
          /\ P!Matches(art, R.dataStart - 2, P!CRLF) /\ ~P!Matches(art, R.dataStart, P!EqY)
          /\ P!Matches(art, R.dataEnd, P!CRLF \o P!YEnd)
          /\ \A i \in (R.dataEnd + 1)..Len(art) : ~P!Matches(art, i, P!CRLF \o P!YEnd)
          /\ R.data = P!Decode("raw", P!Slice(art, R.dataStart, R.dataEnd))
(* an end line is needed, and enough unless properties are missing *)
EndNeeded == (Starts # {} /\ \A i \in 0..Len(art) : ~LineAt(i, P!YEnd)) => R.error = "no_end_found"
(* nothing about the text before the article matters to what is found in it *)
Prefix == LET q == P!Parse(<<120>> \o P!CRLF \o art, TRUE) IN
          R.error = "" /\ R.yencStart = 0 => q.error = "" /\ q.props = R.props /\ q.data = R.data /\ q.must = R.must /\ q.dataStart = (IF R.dataStart = P!None THEN P!None ELSE R.dataStart + 3)
=============================================================================
