CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS Same Monotone Limits Additive
CHECK_DEADLOCK FALSE
