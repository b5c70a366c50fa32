SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {"SP", "NU", "SY", "CL", "PR", "OP", "HY", "HL", "ZWJ", "ID"}
INVARIANTS TypeOK Agree MustBreak NotBeforeSpace MarksStick
PROPERTY Settled
CHECK_DEADLOCK FALSE
