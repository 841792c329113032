SPECIFICATION TSpec
CONSTANTS Kinds <- MCKinds
  MaxItems = 0
CONSTRAINT Furthest
POSTCONDITION Report
CHECK_DEADLOCK FALSE
