SPECIFICATION TSpec
CONSTANTS
  Judge = "C01"
  Alphabet = {}
  MaxLen = 0
  Steps = {}
  Texts = {}
VIEW TView
PROPERTIES EditExact ChangeMark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
