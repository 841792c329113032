SPECIFICATION TSpec
CONSTANT MaxLen <- MCLen
POSTCONDITION Post
CHECK_DEADLOCK FALSE
