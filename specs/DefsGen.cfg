SPECIFICATION Spec
CONSTANTS
  Bi <- GBi
  Ds <- GDs
  Ts <- GTs
VIEW View
INVARIANTS BuiltinsStay BuiltinsKeyed Dispatch Fallback CtorsMatch
PROPERTIES RefusedKeeps NewestWins OthersKept ClearExact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
