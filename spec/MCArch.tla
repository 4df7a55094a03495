------------------------------- MODULE MCArch -------------------------------
(* Every system, built up feature by feature: the choice made from the report never needs what is not there. *)
EXTENDS Arch, TLC
CONSTANT Mistake               \* "" or one that must be refuted
VARIABLES a, f, known
vars == <<a, f, known>>
Init == a \in Archs /\ f = Base[a] /\ known = Base[a]
Next == /\ a' = a
        /\ \/ \E x \in Features[a] \ f : Plausible(a, f \cup {x}) /\ f' = f \cup {x} /\ known' = known
           \/ \E x \in Features[a] \ known : known' = known \cup {x} /\ f' = f
Spec == Init /\ [][Next]_vars
Rep == CASE Mistake = "processor" -> Report(a, f, Features[a])                          \* asks the processor, not the kernel
         [] Mistake = "word" -> { <<1 - r[1], r[2]>> : r \in Report(a, f, known) }      \* reads the other word
         [] Mistake = "bits" -> { <<r[1], b>> : r \in Report(a, f, known), b \in 0..31 } \* tests for any bit
         [] OTHER -> Report(a, f, known)
CrcImpl == IF Mistake = "pmullalone" /\ a = "aarch64" /\ Told(a, Rep, "PMULL") THEN "pmull" ELSE Crc(a, Rep)
ChoiceSafe == Required(a, Codec(a, Rep)) \cup Required(a, CrcImpl) \subseteq Available(a, f, known)
TypeOK == Plausible(a, f) /\ known \subseteq Features[a] /\ Available(a, f, known) \subseteq {"ASIMD", "NEON", "CRC32", "PMULL", "V", "CLMUL"}
(* what is there is used *)
Used == /\ (a = "aarch64" => Codec(a, Rep) = "neon") /\ (a = "riscv64" /\ "V" \in f \cap known => Codec(a, Rep) = "rvv")
        /\ ("CRC32" \in f \cap known => CrcImpl # "generic")
(* more features or a newer kernel never take an implementation away *)
Monotone == [][ (Codec(a, Report(a, f, known)) # "generic" => Codec(a, Report(a, f', known')) # "generic") /\ (Crc(a, Report(a, f, known)) # "generic" => Crc(a, Report(a, f', known')) # "generic") ]_vars
=============================================================================
