SPECIFICATION Spec
CONSTANTS
  Pool <- IoPool
  Start <- IoStart
  MaxSteps = 5
  MaxConns = 3
  SplitSteps = 3
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
