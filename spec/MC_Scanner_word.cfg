SPECIFICATION Spec
CONSTANTS
  Alphabet = {45, 49, 105, 73, 110, 78, 102, 97, 116, 121, 84}
  MaxLen = 10
INVARIANTS Typed ExtentAgrees KindAgrees SignAgrees ValueAgrees Settled
PROPERTY Grows
CHECK_DEADLOCK FALSE
