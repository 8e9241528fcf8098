SPECIFICATION Spec
CONSTANTS
  Carries = TRUE
  WholeSum = TRUE
  Asymmetric = FALSE
  Ops = {"bound"}
INVARIANTS C16
CHECK_DEADLOCK TRUE
