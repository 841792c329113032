SPECIFICATION Spec
CONSTANTS
  Lines <- MCLines
  Answers <- MCAnswers
  Lim = 2
  MaxItems = 3
CONSTRAINT Bound
INVARIANTS Replaced Inverse Cyclic PutInPlace WordOK
CHECK_DEADLOCK FALSE
