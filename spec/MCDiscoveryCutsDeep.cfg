SPECIFICATION Spec
CONSTANTS
  Streams <- Few
  MaxWrites = 4
  AnyReads = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
