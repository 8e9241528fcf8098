SPECIFICATION Spec
CONSTANTS
  P = 10
  W = 18
  EMin = 30
  EMax = 20
  Thresh = 5
  Margin = 1
  Asym = TRUE
  Candidates <- ThinValues
INVARIANTS InRange DigitsInv NoOverflow NoTrailingZero C01 C03 C05 Measured Progress
POSTCONDITION Quality
