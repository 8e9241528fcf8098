SPECIFICATION Spec
CONSTANTS
  Carries = FALSE
  WholeSum = TRUE
  Asymmetric = TRUE
  Ops = {"down"}
INVARIANTS C16
CHECK_DEADLOCK TRUE
