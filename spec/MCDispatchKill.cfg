SPECIFICATION Spec
CONSTANTS
  NC = 2
  Inputs <- In_quiet
  Regs <- Regs_kill
  Kind <- Kinds
  OnClose <- NoOne
  Shutdown = FALSE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
