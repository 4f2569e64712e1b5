SPECIFICATION Spec
CONSTANTS
  Pool <- MsgPool
  Start <- MsgStart
  MaxSteps = 3
  MaxConns = 3
  SplitSteps = 2
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
