SPECIFICATION Spec
CONSTANTS
  Alphabet = {32, 45, 46, 44, 48, 49, 101, 120, 217}
  MaxLen = 4
  Points <- MC_Points
  Takes = "any"
  Shift = FALSE
INVARIANTS C20
CHECK_DEADLOCK FALSE
