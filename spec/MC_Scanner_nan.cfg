SPECIFICATION Spec
CONSTANTS
  Alphabet = {43, 48, 110, 78, 97, 122, 90, 40, 41, 95, 46}
  MaxLen = 7
INVARIANTS Typed ExtentAgrees KindAgrees SignAgrees ValueAgrees Settled
PROPERTY Grows
CHECK_DEADLOCK FALSE
