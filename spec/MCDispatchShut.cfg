SPECIFICATION Spec
CONSTANTS
  NC = 2
  Inputs <- In_quiet
  Regs <- Regs_one
  Kind <- Kinds
  OnClose <- NoOne
  Shutdown = TRUE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
