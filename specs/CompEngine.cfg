SPECIFICATION Spec
CONSTANTS
  Src = {1, 2}
  Lim = 2
  MaxReq = 3
  Sizes = {0, 1, 3}
  Fair = {1, 2}
INVARIANTS TypeOK Fresh Once Few Ordered AskedForward LastAsked
PROPERTIES Clears
CHECK_DEADLOCK FALSE
