CONSTANT MaxLen = 7
SPECIFICATION Spec
INVARIANTS Chars Elems
CHECK_DEADLOCK FALSE
