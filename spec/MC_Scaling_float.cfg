SPECIFICATION Spec
CONSTANTS
  W = 32
  P = 24
  EMin = 149
  EMax = 104
  Off = 50
  Kappa = 9
  FB = 7
  MaxExp = 9999
  MaxLen = 2048
  MaxDigits = 9
  Upwards = TRUE
INVARIANTS InTable InRange OverflowRight UnderflowRight DoubtIsRare
CHECK_DEADLOCK FALSE
