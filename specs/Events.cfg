SPECIFICATION Spec
CONSTANTS
  Keys = {"a 0", "b 2"}
  MaxLen = 4
CONSTRAINT Bound
INVARIANT Complete
INVARIANT Resizes
INVARIANT NoMouse
CHECK_DEADLOCK FALSE
