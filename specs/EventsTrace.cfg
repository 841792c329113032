SPECIFICATION TSpec
CONSTANTS
  Keys = {}
  MaxLen = 0
VIEW TView
POSTCONDITION TReport
CHECK_DEADLOCK FALSE
