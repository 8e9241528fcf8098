SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxLen = 9
  MinDot = 44
  MaxDot = 39
  Size = 24
  Scaled = TRUE
  Overlaps = FALSE
INVARIANTS C03
CHECK_DEADLOCK TRUE
