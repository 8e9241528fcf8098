SPECIFICATION Spec
CONSTANTS
  Carries = TRUE
  WholeSum = TRUE
  Asymmetric = TRUE
  Ops = {"conv", "bound", "down", "mul", "step", "round"}
INVARIANTS C16 ShiftsOk
CHECK_DEADLOCK TRUE
