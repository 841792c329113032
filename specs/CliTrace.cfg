SPECIFICATION TSpec
CONSTANTS
  Args = {}
  MaxArgs = 0
VIEW TView
INVARIANTS FilesInOrder Conserved
POSTCONDITION Report
CHECK_DEADLOCK FALSE
