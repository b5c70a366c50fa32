SPECIFICATION Spec
CONSTANTS MaxText = 5
 NB = 1
 Values = {0, 1}
 MaxLam = 5
 MaxPen = 1
 Longest_ = 4
 MinCap = 2
INVARIANTS RingOk Clean
PROPERTY AbsNext
CHECK_DEADLOCK FALSE
