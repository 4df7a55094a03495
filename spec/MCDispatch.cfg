SPECIFICATION Spec
CONSTANT Vary = {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "PCLMULQDQ", "BMI1", "LZCNT", "AVX", "AVX2", "VPCLMULQDQ", "OSXSAVE", "YMM", "SLOWBLEND"}
INVARIANTS CodecSafe CrcSafe TypeOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
