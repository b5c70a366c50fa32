CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANTS Chars Elems
CHECK_DEADLOCK FALSE
