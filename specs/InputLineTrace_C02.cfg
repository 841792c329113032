SPECIFICATION TSpec
CONSTANTS
  Judge = "C02"
  Alphabet = {}
  MaxLen = 0
  Steps = {}
  Texts = {}
VIEW TView
PROPERTIES MovesKeepText WordMoves
POSTCONDITION Report
CHECK_DEADLOCK FALSE
