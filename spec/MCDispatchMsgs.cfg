SPECIFICATION Spec
CONSTANTS
  NC = 2
  Inputs <- In_msgs
  Regs <- Regs_one
  Kind <- Kinds
  OnClose <- NoOne
  Shutdown = FALSE
  Bug = "none"
INVARIANTS Allowed LockSane Stream Quiescent
CHECK_DEADLOCK FALSE
