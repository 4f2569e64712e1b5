SPECIFICATION Spec
CONSTANTS
  Tokens <- Raw
  MaxTok = 8
  Slack = 1
VIEW View
INVARIANTS Lemmas Emit
CHECK_DEADLOCK FALSE
