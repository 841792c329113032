SPECIFICATION Spec
CONSTANT MaxLen <- MCLen
INVARIANTS Agree Typed Scoped Once
PROPERTY Immutable
ACTION_CONSTRAINT Out
CHECK_DEADLOCK FALSE
