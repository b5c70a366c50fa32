CONSTANTS
  Points = {1, 2, 3, 4}
  Tables = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Exact OrderMatters
PROPERTIES GetsThere
CHECK_DEADLOCK FALSE
