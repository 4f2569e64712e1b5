SPECIFICATION Spec
CONSTANTS
  Pool <- RegPool
  Start <- RegStart
  MaxSteps = 4
  MaxConns = 4
  SplitSteps = 2
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
