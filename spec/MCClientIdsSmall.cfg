SPECIFICATION Spec
CONSTANTS
  Idx <- Small
CHECK_DEADLOCK FALSE
