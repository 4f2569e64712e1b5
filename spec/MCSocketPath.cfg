SPECIFICATION Spec
CONSTANTS
  Procs = 3
INVARIANT Inv
