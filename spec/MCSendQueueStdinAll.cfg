SPECIFICATION Spec
CONSTANTS Cap = 3  Sizes = {1, 2, 3, 7}  Messages = FALSE  MaxEnq = 4  MaxSwaps = 99  Emit = FALSE
INVARIANTS InOrder NoneStranded Shape
PROPERTY Delivered
CHECK_DEADLOCK FALSE
