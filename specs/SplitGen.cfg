SPECIFICATION Spec
CONSTANT MaxLen <- MCLen
INVARIANTS Covered Respaced Emit
CHECK_DEADLOCK FALSE
