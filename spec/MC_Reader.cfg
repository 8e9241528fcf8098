SPECIFICATION Spec
CONSTANTS
  Alphabet = {49, 46, 45, 101, 110, 97, 105, 102, 116, 121, 40, 41, 33}
  MaxLen = 9
  MaxOffset = 100
  Lazy = TRUE
  Watchful = TRUE
INVARIANTS C14 C14end C09
CHECK_DEADLOCK TRUE

