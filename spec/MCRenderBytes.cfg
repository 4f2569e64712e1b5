SPECIFICATION Spec
CONSTANTS
  Pool <- Bytes_
  MaxArgs = 1
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
