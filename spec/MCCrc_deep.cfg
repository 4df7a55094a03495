SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Incremental CombineLaw ZeroesLaw TableForm
CHECK_DEADLOCK FALSE
