-------------------------------- MODULE Arch --------------------------------
(***************************************************************************)
(* Processors other than x86 and what may run on them.  A system is an     *)
(* architecture, the optional features of its processor, and those that    *)
(* its kernel knows of (and so enables and reports).  What a program is    *)
(* told is a set of bits in two words: AT_HWCAP, and AT_HWCAP2 or, on      *)
(* RISC-V, the answer to riscv_hwprobe.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Archs == {"aarch64", "arm", "riscv64"}
Features == [ aarch64 |-> {"ASIMD", "CRC32", "PMULL"}, arm |-> {"NEON", "CRC32", "PMULL"}, riscv64 |-> {"V", "ZBC", "ZBKC"} ]
(* what every system that runs Node has *)
Base == [ aarch64 |-> {"ASIMD"}, arm |-> {}, riscv64 |-> {} ]
(* where a feature is reported: <<word, bit>> *)
Bit == [ aarch64 |-> [ ASIMD |-> <<0, 1>>, PMULL |-> <<0, 4>>, CRC32 |-> <<0, 7>> ], arm |-> [ NEON |-> <<0, 12>>, PMULL |-> <<1, 1>>, CRC32 |-> <<1, 4>> ],
         riscv64 |-> [ V |-> <<0, 21>>, ZBC |-> <<1, 7>>, ZBKC |-> <<1, 9>> ] ]
Always == [ aarch64 |-> {}, arm |-> {}, riscv64 |-> { <<0, b>> : b \in {0, 2, 3, 5, 8, 12} } ]          \* RISC-V: the letters of IMAFDC
(* 32-bit ARM got the CRC and polynomial instructions with version 8, which has NEON *)
Plausible(a, f) == f \subseteq Features[a] /\ Base[a] \subseteq f /\ (a = "arm" /\ f \cap {"CRC32", "PMULL"} # {} => "NEON" \in f)
Usable(f, known) == f \cap known
Report(a, f, known) == { Bit[a][x] : x \in Usable(f, known) } \cup Always[a]

(* what instructions those features offer *)
Offers(x) == IF x \in {"ZBC", "ZBKC"} THEN {"CLMUL"} ELSE {x}
Available(a, f, known) == UNION { Offers(x) : x \in Usable(f, known) \cup Base[a] }
Safe(a, f, known, executed) == executed \subseteq Available(a, f, known)

(* The intended choice, from the report alone. *)
Told(a, rep, x) == Bit[a][x] \in rep
Codec(a, rep) ==
    CASE a = "aarch64" -> IF Told(a, rep, "ASIMD") THEN "neon" ELSE "generic"
      [] a = "arm"     -> IF Told(a, rep, "NEON") THEN "neon" ELSE "generic"
      [] a = "riscv64" -> IF Told(a, rep, "V") THEN "rvv" ELSE "generic"
Crc(a, rep) ==
    CASE a = "riscv64" -> IF Told(a, rep, "ZBC") \/ Told(a, rep, "ZBKC") THEN "clmul" ELSE "generic"
      [] OTHER -> IF ~Told(a, rep, "CRC32") THEN "generic" ELSE IF a = "aarch64" /\ Told(a, rep, "PMULL") THEN "pmull" ELSE "crc"
Required(a, impl) ==
    CASE impl = "generic" -> {}
      [] impl = "neon" -> {IF a = "arm" THEN "NEON" ELSE "ASIMD"}
      [] impl = "rvv" -> {"V"}
      [] impl = "clmul" -> {"CLMUL"}
      [] impl = "crc" -> {"CRC32"}
      [] impl = "pmull" -> {"CRC32", "PMULL"}                  \* reduces with the CRC instructions
VectorBits == {128, 256, 512, 1024}
=============================================================================
