SPECIFICATION Spec
CONSTANTS
  Pool <- Big_
  MaxArgs = 2
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
