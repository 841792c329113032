SPECIFICATION Spec
CONSTANTS Kinds <- MCKinds
  MaxItems <- MCMax
INVARIANTS Definite OnePerItem Alone Honest
PROPERTIES NoStartAfterStop Once Ends
CHECK_DEADLOCK FALSE
