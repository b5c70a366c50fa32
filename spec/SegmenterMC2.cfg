SPECIFICATION Spec
CONSTANTS MaxText = 2
 NB = 2
 Values = {0, 1, 10000}
 MaxLam = 1
 MaxPen = 1
 Longest_ = 2
INVARIANTS Lossless NotEmpty WellPlaced InBound LongStops FailStops StopsAtBound
PROPERTY Returns
CHECK_DEADLOCK FALSE
