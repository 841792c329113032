SPECIFICATION TSpec
CONSTANTS
  Bi <- TraceBi
  Ds = {}
  Ts = {}
VIEW TView
INVARIANTS BuiltinsStay BuiltinsKeyed Dispatch CtorsMatch
PROPERTIES RefusedKeeps
POSTCONDITION Report
CHECK_DEADLOCK FALSE
