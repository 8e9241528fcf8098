SPECIFICATION Spec
CONSTANTS
  Alphabet = {45, 46, 44, 105, 110, 102, 97, 40, 41}
  MaxLen = 4
  Points <- MC_Points
  Takes = "digits"
  Shift = TRUE
INVARIANTS C20
CHECK_DEADLOCK FALSE
