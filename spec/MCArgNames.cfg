SPECIFICATION Spec
CONSTANTS
  Alpha <- Names
  MaxTok = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
