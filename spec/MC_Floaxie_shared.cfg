SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Errnos = {0, 34}
  Used = {1, 3, 4, 5, 8, 11}
  MaxDepth = 1
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C"}
  FollowsLocale = FALSE
  GivesBackOnThrow = TRUE
  SwapsLocale = FALSE
  SharedScratch = TRUE
INVARIANTS C07
CHECK_DEADLOCK TRUE
