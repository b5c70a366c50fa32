SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {"CR", "LF", "Newline", "Extend", "ZWJ", "Format", "RI", "Katakana", "Hebrew", "ALetter", "SQ", "DQ", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "WSegSpace", "Pict", "LePict", "Other"}
INVARIANTS TypeOK Agree NoBreakInsideCRLF HardAreBreaks IgnorablesStick FlagPairs
PROPERTY Settled
CHECK_DEADLOCK FALSE
