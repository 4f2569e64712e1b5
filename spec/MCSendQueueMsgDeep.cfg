SPECIFICATION Spec
CONSTANTS Cap = 4072  Sizes = {25, 1000, 1024}  Messages = TRUE  MaxEnq = 9  MaxSwaps = 7  Emit = TRUE
INVARIANTS InOrder NoneStranded Shape
VIEW View
CHECK_DEADLOCK FALSE
