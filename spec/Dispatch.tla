------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Processors and what may run on them.  A processor is the set of the     *)
(* features it reports (CPUID) and that the operating system has enabled   *)
(* (YMM, ZMM: the register state in XCR0).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Plain == {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "PCLMULQDQ", "BMI1", "BMI2", "LZCNT"}           \* usable when reported
Ymm   == {"AVX", "AVX2", "VPCLMULQDQ"}                                                                 \* need the YMM state enabled too
Zmm   == {"AVX512F", "AVX512BW", "AVX512VL", "AVX512DQ", "AVX512VBMI", "AVX512VBMI2"}                  \* need the ZMM state as well
Other == {"OSXSAVE", "YMM", "ZMM", "AVX10", "AVX10512", "SLOWSSSE3", "SLOWBLEND", "BOBCAT"}
Features == Plain \cup Ymm \cup Zmm \cup Other
(* what the instructions of an implementation may need *)
HasYmm(f) == {"OSXSAVE", "YMM", "AVX"} \subseteq f
HasZmm(f) == HasYmm(f) /\ "ZMM" \in f
Available(f) ==
    (f \cap Plain)
    \cup (IF HasYmm(f) THEN f \cap Ymm ELSE {})
    \cup (IF HasZmm(f) /\ "AVX512F" \in f THEN (f \cap Zmm) \cup {"EVEX512"} ELSE {})
    \cup (IF HasZmm(f) /\ "AVX10" \in f THEN Zmm ELSE {})
    \cup (IF HasZmm(f) /\ {"AVX10", "AVX10512"} \subseteq f THEN {"EVEX512"} ELSE {})
Safe(f, executed) == executed \subseteq Available(f)

(* CPUID: leaf, subleaf, register (0 EAX .. 3 EDX), bit *)
Bit == [ SSE3 |-> <<1, 0, 2, 0>>, PCLMULQDQ |-> <<1, 0, 2, 1>>, SSSE3 |-> <<1, 0, 2, 9>>, SSE41 |-> <<1, 0, 2, 19>>, SSE42 |-> <<1, 0, 2, 20>>, POPCNT |-> <<1, 0, 2, 23>>,
         OSXSAVE |-> <<1, 0, 2, 27>>, AVX |-> <<1, 0, 2, 28>>, BMI1 |-> <<7, 0, 1, 3>>, AVX2 |-> <<7, 0, 1, 5>>, BMI2 |-> <<7, 0, 1, 8>>, AVX512F |-> <<7, 0, 1, 16>>,
         AVX512DQ |-> <<7, 0, 1, 17>>, AVX512BW |-> <<7, 0, 1, 30>>, AVX512VL |-> <<7, 0, 1, 31>>, AVX512VBMI |-> <<7, 0, 2, 1>>, AVX512VBMI2 |-> <<7, 0, 2, 6>>,
         VPCLMULQDQ |-> <<7, 0, 2, 10>>, AVX10 |-> <<7, 1, 3, 19>>, LZCNT |-> <<1073741824, 0, 2, 5>> ]      \* the last stands for leaf 0x80000001 (TLC has 31 bits)

(* No processor reports these without those (an operating system or hypervisor may hide a feature, but not what it is built on). *)
Implies == [ SSSE3 |-> {"SSE3"}, SSE41 |-> {"SSSE3"}, SSE42 |-> {"SSE41"}, AVX |-> {"SSE42", "POPCNT"}, AVX2 |-> {"AVX"}, VPCLMULQDQ |-> {"AVX", "PCLMULQDQ"}, AVX512F |-> {"AVX2"},
             AVX512BW |-> {"AVX512F"}, AVX512VL |-> {"AVX512F"}, AVX512DQ |-> {"AVX512F"}, AVX512VBMI |-> {"AVX512BW"}, AVX512VBMI2 |-> {"AVX512BW"}, ZMM |-> {"YMM"}, YMM |-> {"OSXSAVE"},
             AVX10 |-> {"AVX2", "BMI1", "BMI2", "LZCNT", "VPCLMULQDQ"}, AVX10512 |-> {"AVX10"} ]
Plausible(f) == \A x \in f \cap DOMAIN Implies : Implies[x] \subseteq f

(* The intended choice. *)
Levels == <<"sse2", "ssse3", "avx", "avx2", "vbmi2">>
Required == [ sse2 |-> {}, ssse3 |-> {"SSE3", "SSSE3"}, avx |-> {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "AVX"},
              avx2 |-> {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "AVX", "AVX2", "BMI1", "BMI2", "LZCNT"},
              vbmi2 |-> {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "AVX", "AVX2", "BMI1", "BMI2", "LZCNT", "AVX512F", "AVX512BW", "AVX512VL", "AVX512VBMI2", "EVEX512"} ]
Codec(f) ==
    IF "SSSE3" \notin f \/ f \cap {"SLOWSSSE3", "BOBCAT"} # {} THEN "sse2"
    ELSE IF "SLOWBLEND" \in f \/ ~({"SSE41", "POPCNT"} \subseteq f /\ HasYmm(f)) THEN "ssse3"
    ELSE IF ~({"AVX2", "BMI1", "BMI2", "LZCNT"} \subseteq f) THEN "avx"
    ELSE IF HasZmm(f) /\ "EVEX512" \in Available(f) /\ {"AVX512F", "AVX512BW", "AVX512VL", "AVX512VBMI2"} \subseteq Available(f) THEN "vbmi2"
    ELSE "avx2"
CrcRequired == [ generic |-> {}, clmul |-> {"SSE3", "SSSE3", "SSE41", "PCLMULQDQ"}, vpclmul |-> {"SSE3", "SSSE3", "SSE41", "PCLMULQDQ", "AVX", "AVX2", "VPCLMULQDQ"} ]
CrcChoice(f) == IF ~({"SSSE3", "SSE41", "PCLMULQDQ"} \subseteq f) THEN "generic" ELSE IF {"AVX2", "VPCLMULQDQ"} \subseteq Available(f) THEN "vpclmul" ELSE "clmul"

(* Processors there are, for generating neighbours. *)
Core2   == {"SSE3", "SSSE3"}
Penryn  == Core2 \cup {"SSE41"}
Nehalem == Penryn \cup {"SSE42", "POPCNT"}
Westmere == Nehalem \cup {"PCLMULQDQ"}
Sandy   == Westmere \cup {"OSXSAVE", "YMM", "AVX"}
Haswell == Sandy \cup {"AVX2", "BMI1", "BMI2", "LZCNT"}
Skylake == Haswell \cup {"ZMM", "AVX512F", "AVX512BW", "AVX512VL", "AVX512DQ"}
Icelake == Skylake \cup {"AVX512VBMI", "AVX512VBMI2", "VPCLMULQDQ"}
Alder   == Haswell \cup {"VPCLMULQDQ"}
K10     == {"SSE3", "POPCNT", "LZCNT"}
Bulldozer == Sandy \cup {"LZCNT"}
NoXsave == Icelake \ {"OSXSAVE", "YMM", "ZMM"}
NoZmm   == Icelake \ {"ZMM"}
Avx10256 == Alder \cup {"ZMM", "AVX10"}
Avx10512 == Avx10256 \cup {"AVX10512"}
Avx10Both == Icelake \cup {"AVX10", "AVX10512"}
Typical == { {}, {"SSE3"}, K10, Core2, Penryn, Nehalem, Westmere, Sandy, Haswell, Skylake, Icelake, Alder, Bulldozer, NoXsave, NoZmm, Avx10256, Avx10512, Avx10Both,
             Westmere \cup {"SLOWSSSE3"}, Core2 \cup {"BOBCAT"}, Westmere \cup {"SLOWBLEND"}, Haswell \cup {"SLOWBLEND"} }
Flip(f, x) == IF x \in f THEN f \ {x} ELSE f \cup {x}
RECURSIVE Shrunk(_)       \* take away what lacks its basis
Shrunk(f) == LET bad == { x \in f \cap DOMAIN Implies : ~(Implies[x] \subseteq f) } IN IF bad = {} THEN f ELSE Shrunk(f \ bad)
=============================================================================
