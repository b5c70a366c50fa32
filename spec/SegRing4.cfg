SPECIFICATION Spec
CONSTANTS MaxText = 4
 NB = 1
 Values = {0, 1}
 MaxLam = 3
 MaxPen = 1
 Longest_ = 3
 MinCap = 2
INVARIANTS RingOk Clean
PROPERTY AbsNext
CHECK_DEADLOCK FALSE
