SPECIFICATION Spec
CONSTANTS
  Alphabet = {"L", "R", "EN", "ON", "FSI", "RLI", "PDI"}
  MaxLen = 6
INVARIANTS LevelsOk OrderOk IsolateOk RemovedOk StutterOk PairsOk
CHECK_DEADLOCK FALSE
