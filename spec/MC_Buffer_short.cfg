SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxLen = 9
  MinDot = 44
  MaxDot = 39
  Size = 16
  Scaled = TRUE
  Overlaps = TRUE
INVARIANTS C04
CHECK_DEADLOCK TRUE
