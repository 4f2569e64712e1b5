SPECIFICATION Spec
CONSTANTS
  Alpha <- Utf
  MaxTok = 3
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
