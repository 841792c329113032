CONSTANTS HistLimit = 100 OutLimit = 100 ItemLimit = 10 Depth = 0
SPECIFICATION TSpec
CONSTRAINT Furthest
POSTCONDITION Report
CHECK_DEADLOCK FALSE
