SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  MaxConns = 4
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
