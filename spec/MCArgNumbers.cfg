SPECIFICATION Spec
CONSTANTS
  Alpha <- Numbers
  MaxTok = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
