SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS InOrder Recorded Complete AtRest
PROPERTY Terminates
