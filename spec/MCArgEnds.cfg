SPECIFICATION Spec
CONSTANTS
  Alpha <- Ends
  MaxTok = 3
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
