CONSTANTS
  Size = 15
  C = 3
  MaxLen = 3
  MaxWords = 4
SPECIFICATION Spec
INVARIANTS Exact Distinct Homed Family Bounds
PROPERTIES Still
CHECK_DEADLOCK FALSE
