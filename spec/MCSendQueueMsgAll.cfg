SPECIFICATION Spec
CONSTANTS Cap = 7  Sizes = {1, 2, 3}  Messages = TRUE  MaxEnq = 5  MaxSwaps = 99  Emit = FALSE
INVARIANTS InOrder NoneStranded Shape
PROPERTY Delivered
CHECK_DEADLOCK FALSE
