SPECIFICATION Spec
CONSTANTS
  Tokens <- Structure
  MaxTok = 6
  Slack = 1
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
