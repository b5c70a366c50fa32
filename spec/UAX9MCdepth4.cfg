SPECIFICATION Spec
CONSTANTS
  Alphabet = {"L", "R", "EN", "ON", "NSM", "FSI", "LRI", "RLI", "PDI"}
  MaxLen = 4
  MaxDepth <- SmallDepth
INVARIANTS LevelsOk OrderOk IsolateOk RemovedOk StutterOk DepthOk
CHECK_DEADLOCK FALSE
