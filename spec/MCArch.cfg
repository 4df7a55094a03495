SPECIFICATION Spec
CONSTANT Mistake = ""
INVARIANTS ChoiceSafe TypeOK Used
PROPERTY Monotone
CHECK_DEADLOCK FALSE
