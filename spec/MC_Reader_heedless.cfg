SPECIFICATION Spec
CONSTANTS
  Alphabet = {49, 46, 45, 101, 110, 78, 97, 105, 102, 116, 121, 40, 41, 95, 33}
  MaxLen = 6
  MaxOffset = 100
  Lazy = TRUE
  Watchful = FALSE
INVARIANTS C14
CHECK_DEADLOCK TRUE
