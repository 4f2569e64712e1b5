SPECIFICATION Spec
CONSTANT Cap = 4072
CHECK_DEADLOCK FALSE
