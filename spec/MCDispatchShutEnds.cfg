SPECIFICATION Spec
CONSTANTS
  NC = 1
  Inputs <- In_one
  Regs <- Regs_one
  Kind <- Kinds
  OnClose <- Eight
  Shutdown = TRUE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
