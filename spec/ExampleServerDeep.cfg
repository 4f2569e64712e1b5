SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  MaxConns = 4
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
