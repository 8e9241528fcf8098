SPECIFICATION Spec
CONSTANTS
  P = 10
  W = 20
  EMin = 40
  EMax = 30
  Thresh = 5
  Margin = 1
  Asym = FALSE
  Candidates <- Pow2Values
INVARIANTS InRange DigitsInv NoOverflow NoTrailingZero C01 C03 C05 Measured Progress
