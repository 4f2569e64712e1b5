SPECIFICATION Spec
CONSTANTS
  NC = 2
  Inputs <- In_ends
  Regs <- Regs_one
  Kind <- Kinds
  OnClose <- Eight
  Shutdown = FALSE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
