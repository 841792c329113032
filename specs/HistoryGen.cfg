SPECIFICATION Spec
CONSTANTS
  Limit = 100
  Lines = {1, 2}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
