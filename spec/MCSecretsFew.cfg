SPECIFICATION Spec
CONSTANTS
  Draws <- FewDraws
  MaxIssued = 4
INVARIANT Inv
