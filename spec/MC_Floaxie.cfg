SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Errnos = {0, 34}
  Used = {1, 3, 4, 5, 8, 11}
  MaxDepth = 1
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C"}
  FollowsLocale = FALSE
  GivesBackOnThrow = TRUE
  SwapsLocale = FALSE
  SharedScratch = FALSE
INVARIANTS C01 C03 C05 C06 C07 C08 C09 C10 C11 C18
PROPERTIES Returns Refines
CHECK_DEADLOCK TRUE
