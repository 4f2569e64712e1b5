SPECIFICATION Spec
CONSTANTS Cap = 4072  Sizes = {25, 1000, 1024}  Messages = TRUE  MaxEnq = 7  MaxSwaps = 4  Emit = TRUE
INVARIANTS InOrder NoneStranded Shape
VIEW View
CHECK_DEADLOCK FALSE
