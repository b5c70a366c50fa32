CONSTANTS
  MaxLen = 7
SPECIFICATION Spec
INVARIANTS Agree Parts Whole
CHECK_DEADLOCK FALSE
