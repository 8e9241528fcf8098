SPECIFICATION Spec
CONSTANTS
  Kappa = 3
  FD = 2
  Alphabet = {46, 48, 49, 57}
  MaxLen = 8
  Capped = FALSE
  Counted = TRUE
INVARIANTS Typed ZeroAgrees Collected Full
CHECK_DEADLOCK FALSE
