SPECIFICATION Spec
CONSTANTS
  Alpha <- Utf
  MaxTok = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
