SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {"BK", "CR", "LF", "NL", "SP", "ZW", "WJ", "GL", "CL", "CP", "EX", "IS", "SY", "OP", "QU", "B2", "BA", "CB", "HY", "NS", "BB", "AL", "HL", "ID", "EB", "EM", "IN", "NU", "RI", "PR", "PO", "JL", "JV", "JT", "H2", "H3", "ZWJ", "CM"}
INVARIANTS TypeOK Agree MustBreak NotBeforeSpace MarksStick
PROPERTY Settled
CHECK_DEADLOCK FALSE
