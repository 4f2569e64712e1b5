SPECIFICATION Spec
CONSTANTS
  Streams <- Small
  MaxWrites = 1000
  AnyReads = TRUE
INVARIANT Inv
VIEW ViewReads
CHECK_DEADLOCK FALSE
