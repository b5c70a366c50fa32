CONSTANTS
  Size = 13
  C = 2
  MaxLen = 4
  MaxWords = 7
SPECIFICATION Spec
INVARIANTS Exact Distinct Homed Family Bounds
PROPERTIES Still
CHECK_DEADLOCK FALSE
