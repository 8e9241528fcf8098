SPECIFICATION Spec
CONSTANTS
  W = 64
  P = 53
  EMin = 1074
  EMax = 971
  Off = 343
  Kappa = 19
  FB = 7
  MaxExp = 9999
  MaxLen = 2048
  MaxDigits = 17
  Upwards = TRUE
INVARIANTS InTable InRange OverflowRight UnderflowRight DoubtIsRare
CHECK_DEADLOCK FALSE
