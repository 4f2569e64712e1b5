SPECIFICATION Spec
CONSTANTS
  Alpha <- Ends
  MaxTok = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
