CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS Same Monotone Limits Additive
CHECK_DEADLOCK FALSE
