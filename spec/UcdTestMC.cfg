CONSTANTS
  MaxLen = 6
SPECIFICATION Spec
INVARIANTS Agree Parts Whole
CHECK_DEADLOCK FALSE
