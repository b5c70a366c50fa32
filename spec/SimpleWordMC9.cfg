SPECIFICATION Spec
CONSTANTS MaxLen = 9
 MaxOld = 6
INVARIANT Right
CHECK_DEADLOCK FALSE
