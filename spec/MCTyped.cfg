SPECIFICATION Spec
CONSTANTS
  MaxMut = 2
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
