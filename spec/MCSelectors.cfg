SPECIFICATION Spec
CONSTANTS
  Alpha <- AlphaC
  MaxLen = 4
CHECK_DEADLOCK FALSE
