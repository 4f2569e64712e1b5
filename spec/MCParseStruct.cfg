SPECIFICATION Spec
CONSTANTS
  Tokens <- Structure
  MaxTok = 5
  Slack = 1
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
