SPECIFICATION Spec
CONSTANTS
  W = 4
  MaxLen = 9
  MinDot = 44
  MaxDot = 39
  Size = 24
  Scaled = TRUE
  Overlaps = TRUE
INVARIANTS C04 C04end C03
CHECK_DEADLOCK TRUE
