SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Errnos = {0, 34}
  Used = {1, 13}
  MaxDepth = 1
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C", "comma"}
  FollowsLocale = TRUE
  GivesBackOnThrow = TRUE
  SwapsLocale = TRUE
  SharedScratch = FALSE
INVARIANTS C07
CHECK_DEADLOCK TRUE
