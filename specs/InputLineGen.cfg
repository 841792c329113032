SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 32, 233}
  MaxLen = 3
  Steps = {1, 2, 2147483647}
  Texts <- GenTexts
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
