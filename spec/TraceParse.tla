----------------------------- MODULE TraceParse -----------------------------
(* Judges recorded calls of from_post. *)
EXTENDS CrcTable, TLC, Json, IOUtils
Tab == CRC_Tab
CrcOfBytes(s) == CRC_Update(Tab, CRC_Zero, s)
LOCAL P == INSTANCE Parser WITH CrcOf <- CrcOfBytes, CrcText <- CRC_Text, White <- {9, 10, 11, 12, 13, 32, 160}
LOCAL U == INSTANCE Parser WITH CrcOf <- CrcOfBytes, CrcText <- CRC_Text, White <- {9, 10, 11, 12, 13, 32}
Parse(e) == IF e.enc = "utf8" THEN U!Parse(e.art, e.raw) ELSE P!Parse(e.art, e.raw)
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* where the parts are, what they say and what they decode to *)
SplitOk(g, r) ==
    IF r.error # "" THEN g.error = r.error
    ELSE /\ g.error = ""
         /\ g.yencStart = r.yencStart /\ g.yencEnd = r.yencEnd
         /\ g.dataStart = r.dataStart /\ g.dataEnd = r.dataEnd
         /\ P!SameYdata(g.props, r.props)
         /\ g.data = r.data
         /\ \/ g.crc = r.crc
            \/ r.dataStart = P!None /\ g.crc = <<>>
(* what is reported about an article that parses *)
ReportOk(g, r) == r.error = "" => (g.error = "" /\ P!WarningsOk(g.warnings, r))
(* an article generated from known contents: parses back to them, with nothing to complain about *)
ReparseOk(e) ==
    /\ LET r == Parse(e) IN SplitOk(e.res, r) /\ r.error = "" /\ r.must = <<>> /\ r.may = <<>>
    /\ e.res.error = "" /\ e.res.warnings = <<>>
    /\ e.res.data = e.data /\ e.res.crc = CrcOfBytes(e.data)
    /\ P!SameYdata(e.res.props, e.want)
Accept(e) ==
    CASE "failed" \in DOMAIN e -> FALSE
      [] e.op = "split"   -> SplitOk(e.res, Parse(e))
      [] e.op = "report"  -> ReportOk(e.res, Parse(e))
      [] e.op = "reparse" -> ReparseOk(e)
Rejected == { i \in 1..Len(Trace) : ~Accept(Trace[i]) }
ASSUME PrintT(<<"JUDGED", Len(Trace), Rejected>>)
=============================================================================
