CONSTANTS HistLimit = 2 OutLimit = 2 ItemLimit = 2 Depth = 10
SPECIFICATION Spec
INVARIANTS TypeOK Distinct Ordered FlagOff
PROPERTIES Others Evaluates OnlyDone
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
