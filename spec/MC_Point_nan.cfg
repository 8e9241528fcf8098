SPECIFICATION Spec
CONSTANTS
  Alphabet = {46, 44, 110, 97, 40, 41}
  MaxLen = 5
  Points <- MC_Points
  Takes = "any"
  Shift = TRUE
INVARIANTS C20
CHECK_DEADLOCK FALSE
