SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS TypeOK Agree CRLFKept HardAlone MarksStick FlagPairs
PROPERTY Settled
CHECK_DEADLOCK FALSE
