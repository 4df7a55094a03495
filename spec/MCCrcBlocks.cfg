SPECIFICATION Spec
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
