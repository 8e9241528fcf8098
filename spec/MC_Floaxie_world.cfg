SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Errnos = {0, 34}
  Used = {5, 13, 14, 11}
  MaxDepth = 2
  PutsErrnoAside = TRUE
  GivesErrnoBack = TRUE
  Locales = {"C", "comma"}
  FollowsLocale = FALSE
  GivesBackOnThrow = TRUE
  SwapsLocale = FALSE
  SharedScratch = FALSE
INVARIANTS C01 C03 C05 C06 C07 C08 C09 C10 C11 C18
PROPERTIES Returns Refines C20
CHECK_DEADLOCK TRUE
