SPECIFICATION Spec
CONSTANT Mistake = "processor"
INVARIANTS ChoiceSafe TypeOK
CHECK_DEADLOCK FALSE
