SPECIFICATION Spec
CONSTANTS
  NC = 1
  Inputs <- In_one
  Regs <- Regs_nest
  Kind <- Kinds
  OnClose <- NoOne
  Shutdown = FALSE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
