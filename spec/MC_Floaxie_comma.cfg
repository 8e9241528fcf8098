SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Errnos = {0, 34}
  Used = {5, 13, 14, 11}
  MaxDepth = 2
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C", "comma"}
  FollowsLocale = TRUE
  GivesBackOnThrow = TRUE
  SwapsLocale = FALSE
  SharedScratch = FALSE
INVARIANTS C07
CHECK_DEADLOCK TRUE
