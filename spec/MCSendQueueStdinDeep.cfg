SPECIFICATION Spec
CONSTANTS Cap = 4072  Sizes = {1, 4071, 4072, 8145}  Messages = FALSE  MaxEnq = 6  MaxSwaps = 9  Emit = TRUE
INVARIANTS InOrder NoneStranded Shape
VIEW View
CHECK_DEADLOCK FALSE
