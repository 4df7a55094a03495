SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Incremental CombineLaw ZeroesLaw TableForm
CHECK_DEADLOCK FALSE
