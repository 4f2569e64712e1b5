SPECIFICATION Spec
CONSTANTS
  Base <- Args_
  Op = "arg"
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
