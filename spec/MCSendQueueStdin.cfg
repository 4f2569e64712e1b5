SPECIFICATION Spec
CONSTANTS Cap = 4072  Sizes = {1, 4071, 4072, 8145}  Messages = FALSE  MaxEnq = 4  MaxSwaps = 5  Emit = TRUE
INVARIANTS InOrder NoneStranded Shape
VIEW View
CHECK_DEADLOCK FALSE
