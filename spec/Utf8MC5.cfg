CONSTANTS
  Bytes = {65, 128, 143, 144, 159, 160, 191, 193, 194, 224, 225, 237, 239, 240, 241, 244, 245}
  MaxLen = 5
SPECIFICATION Spec
INVARIANTS SameLegal Found Start Nothing
CHECK_DEADLOCK FALSE
