SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxLen = 17
  MinDot = 323
  MaxDot = 309
  Size = 34
  Scaled = TRUE
  Overlaps = TRUE
INVARIANTS C04 C04end C03
CHECK_DEADLOCK TRUE
