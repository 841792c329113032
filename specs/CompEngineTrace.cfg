SPECIFICATION TSpec
CONSTANTS
  Src = {1, 2, 3}
  Lim = 10
  MaxReq = 0
  Sizes = {}
  Fair = {}
CONSTRAINT Furthest
INVARIANTS Fresh Once
POSTCONDITION Report
CHECK_DEADLOCK FALSE
