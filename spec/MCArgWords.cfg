SPECIFICATION Spec
CONSTANTS
  Alpha <- Words
  MaxTok = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
