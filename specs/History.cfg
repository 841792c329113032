SPECIFICATION Spec
CONSTANTS
  Limit = 3
  Lines = {1, 2, 3}
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK MostRecent Inverse Newest
PROPERTIES AddRests
CHECK_DEADLOCK FALSE
