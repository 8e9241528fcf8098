SPECIFICATION Spec
CONSTANTS
  P = 6
  W = 14
  EMin = 14
  EMax = 6
  Kappa = 4
  FD = 3
  FB = 6
  BLo <- MBLo
  BHi = 5
  KLo <- MKLo
  KHi = 6
  Stride = 31
  MaxError = 4
  Carry = FALSE
  UseTail = TRUE
INVARIANTS Normalised Fits TailFits WithinError C07 C08 C11 Count

