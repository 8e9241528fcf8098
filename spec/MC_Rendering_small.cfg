SPECIFICATION Spec
CONSTANTS
  Bits = 8
  Blanks <- DoubleBlanks
  Kinds = {"integer"}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
