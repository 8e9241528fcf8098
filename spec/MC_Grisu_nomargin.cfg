SPECIFICATION Spec
CONSTANTS
  P = 7
  W = 14
  EMin = 16
  EMax = 8
  Thresh = 5
  Margin = 0
  Asym = TRUE
INVARIANTS InRange DigitsInv NoOverflow NoTrailingZero C01 C03 C05 Measured Progress
