SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS InOrder Recorded Complete AtRest
PROPERTY Terminates
