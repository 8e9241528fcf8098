SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxLen = 9
  MinDot = 44
  MaxDot = 39
  Size = 24
  Scaled = FALSE
  Overlaps = TRUE
INVARIANTS C03
CHECK_DEADLOCK TRUE
