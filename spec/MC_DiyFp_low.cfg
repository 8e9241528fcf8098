SPECIFICATION Spec
CONSTANTS
  Carries = TRUE
  WholeSum = FALSE
  Asymmetric = TRUE
  Ops = {"mul"}
INVARIANTS C16
CHECK_DEADLOCK TRUE
