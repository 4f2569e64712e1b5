SPECIFICATION Spec
CONSTANTS
  Pool <- HsPool
  Start <- HsStart
  MaxSteps = 6
  MaxConns = 3
  SplitSteps = 4
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
