SPECIFICATION Spec
CONSTANTS
  Args <- MCArgs
  MaxArgs = 4
INVARIANTS FilesInOrder Conserved Commute
PROPERTIES AfterEscape
CHECK_DEADLOCK FALSE
