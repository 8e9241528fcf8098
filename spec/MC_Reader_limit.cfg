SPECIFICATION Spec
CONSTANTS
  Alphabet = {49, 46, 45, 101, 110, 78, 97, 105, 102, 116, 121, 40, 41, 95, 33}
  MaxLen = 7
  MaxOffset = 4
  Lazy = TRUE
  Watchful = TRUE
INVARIANTS C14 C14end
CHECK_DEADLOCK TRUE
PROPERTY Ends
