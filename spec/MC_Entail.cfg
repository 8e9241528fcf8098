SPECIFICATION Spec
CONSTANTS
  P = 3
  MaxN = 24
  MaxText = 99
  Ruinous = FALSE
INVARIANTS C15 C02 C03 C06 C05
