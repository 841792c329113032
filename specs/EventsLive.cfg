SPECIFICATION LSpec
CONSTANTS
  Keys = {"a 0", "b 2"}
  MaxLen = 3
PROPERTY PollEnds
PROPERTY Arrives
CHECK_DEADLOCK FALSE
