SPECIFICATION Spec
CONSTANTS
  P = 3
  MaxN = 24
  MaxText = 99
  Ruinous = TRUE
INVARIANT C15
