SPECIFICATION TSpec
CONSTANTS
  Lines = {}
  Answers = {}
  Lim = 10
  MaxItems = 0
  Judge = "C05"
INVARIANTS Replaced PutInPlace WordOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
