SPECIFICATION Spec
CONSTANTS
  Alphabet = {49, 46, 45, 101, 110, 78, 97, 105, 102, 116, 121, 40, 41, 95, 33}
  MaxLen = 4
  MaxOffset = 100
  Lazy = FALSE
  Watchful = TRUE
INVARIANTS C14
CHECK_DEADLOCK TRUE
