SPECIFICATION Spec
CONSTANTS
  Base <- Msgs_
  Op = "parse"
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
