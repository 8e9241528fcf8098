SPECIFICATION Spec
CONSTANTS
  W = 32
  P = 24
  EMin = 149
  EMax = 104
  Off = 40
  Kappa = 9
  FB = 7
  MaxExp = 9999
  MaxLen = 2048
  MaxDigits = 9
  Upwards = TRUE
INVARIANT UnderflowRight
CHECK_DEADLOCK FALSE
