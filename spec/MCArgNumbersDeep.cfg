SPECIFICATION Spec
CONSTANTS
  Alpha <- Numbers
  MaxTok = 5
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
