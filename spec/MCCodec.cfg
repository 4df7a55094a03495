SPECIFICATION Spec
CONSTANTS MaxLen = 4
 MaxLs = 4
INVARIANTS TransportSafe MonitorRuns PrefixAgrees RoundTripPlain RoundTripRaw RoundTripChunk StuffOnlyFirst JudgeAgrees JudgeStrict MinBound MaxBound ColBound
CHECK_DEADLOCK FALSE
