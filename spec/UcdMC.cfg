CONSTANTS
  Alphabet = {65, 46, 59, 35, 32, 13, 10, 120}
  MaxLen = 5
SPECIFICATION Spec
INVARIANTS Agree
CHECK_DEADLOCK FALSE
