SPECIFICATION Spec
CONSTANTS
  Streams <- Few
  MaxWrites = 1000
  AnyReads = TRUE
PROPERTY Terminates
VIEW ViewReads
CHECK_DEADLOCK FALSE
