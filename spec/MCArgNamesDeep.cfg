SPECIFICATION Spec
CONSTANTS
  Alpha <- Names
  MaxTok = 5
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
