SPECIFICATION Spec
CONSTANTS
  Alphabet = {43, 45, 46, 48, 55, 101, 69, 120}
  MaxLen = 6
INVARIANTS Typed ExtentAgrees KindAgrees SignAgrees ValueAgrees Settled
PROPERTY Grows
CHECK_DEADLOCK FALSE
