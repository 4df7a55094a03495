SPECIFICATION Spec
CONSTANT Mistake = "word"
INVARIANTS Used
CHECK_DEADLOCK FALSE
