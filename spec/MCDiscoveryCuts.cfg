SPECIFICATION Spec
CONSTANTS
  Streams <- Small
  MaxWrites = 3
  AnyReads = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
