SPECIFICATION Spec
CONSTANTS
  Alpha <- Words
  MaxTok = 5
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
