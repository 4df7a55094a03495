SPECIFICATION Spec
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
