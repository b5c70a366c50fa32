SPECIFICATION Spec
CONSTANTS
  Alphabet = {"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "ON", "O", "C", "O2", "C2", "LRI", "RLI", "FSI", "PDI"}
  MaxLen = 3
INVARIANTS LevelsOk OrderOk IsolateOk RemovedOk StutterOk PairsOk
CHECK_DEADLOCK FALSE
