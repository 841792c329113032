SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 45, 32, 233}
  MaxLen = 4
  Steps = {0, 1, 2, 7}
  Texts <- MCTexts
VIEW View
INVARIANTS BytePos
PROPERTIES EditExact ChangeMark MovesKeepText WordMoves
CHECK_DEADLOCK FALSE
