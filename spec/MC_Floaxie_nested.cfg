SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Errnos = {0, 34}
  Used = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  MaxDepth = 2
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C"}
  FollowsLocale = FALSE
  GivesBackOnThrow = TRUE
  SwapsLocale = FALSE
  SharedScratch = FALSE
INVARIANTS C01 C03 C05 C06 C07 C08 C09 C10 C11 C18
PROPERTIES Returns Refines CallsReturn
CHECK_DEADLOCK TRUE
