SPECIFICATION Spec
CONSTANT Vary = {"SSE3", "SSSE3", "SSE41", "SSE42", "POPCNT", "PCLMULQDQ", "BMI1", "BMI2", "LZCNT", "AVX", "AVX2", "VPCLMULQDQ", "OSXSAVE", "YMM", "ZMM", "AVX512F", "AVX512BW", "AVX512VL", "AVX512VBMI2", "AVX10", "AVX10512", "SLOWSSSE3", "SLOWBLEND"}
INVARIANTS CodecSafe CrcSafe TypeOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
