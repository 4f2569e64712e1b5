SPECIFICATION Spec
CONSTANTS
  Draws <- ManyDraws
  MaxIssued = 2
INVARIANT Inv
