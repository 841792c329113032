SPECIFICATION TSpec
CONSTANTS
  Limit = 100
  Lines = {}
VIEW TView
INVARIANTS TypeOK
PROPERTIES AddRests
POSTCONDITION Report
CHECK_DEADLOCK FALSE
