SPECIFICATION Spec
CONSTANTS
  Bits = 64
  Blanks <- DoubleBlanks
  Kinds = {"double", "integer"}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
