SPECIFICATION LiveSpec
CONSTANTS
  Src = {1, 2}
  Lim = 2
  MaxReq = 2
  Sizes = {0, 3}
  Fair = {2}
PROPERTIES EventuallyAnswered EventuallyReceived
CHECK_DEADLOCK FALSE
