SPECIFICATION Spec
CONSTANTS MaxLen = 7
 MaxOld = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
