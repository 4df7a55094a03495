SPECIFICATION Spec
CONSTANT Mistake = "bits"
INVARIANTS ChoiceSafe TypeOK
CHECK_DEADLOCK FALSE
