SPECIFICATION Spec
CONSTANT Mistake = "pmullalone"
INVARIANTS ChoiceSafe TypeOK
CHECK_DEADLOCK FALSE
