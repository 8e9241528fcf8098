SPECIFICATION Spec
CONSTANTS
  P = 4
  MaxN = 999
INVARIANTS ExactlyOne IsNearest Window
CHECK_DEADLOCK FALSE
