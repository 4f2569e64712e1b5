SPECIFICATION Spec
CONSTANTS
  Pool <- Wire_
  MaxArgs = 4
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
