SPECIFICATION Spec
CONSTANTS
  Idx <- Large
CHECK_DEADLOCK FALSE
