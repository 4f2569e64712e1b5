SPECIFICATION Spec
CONSTANTS
  MaxMut = 3
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
