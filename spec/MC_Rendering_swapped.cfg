SPECIFICATION Spec
CONSTANTS
  Bits = 64
  Blanks <- Swapped
  Kinds = {"double"}
INVARIANT Right
CHECK_DEADLOCK FALSE
