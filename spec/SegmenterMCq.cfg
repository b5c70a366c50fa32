SPECIFICATION Spec
CONSTANTS MaxText = 2
 NB = 1
 Values = {0, 1, 10000}
 MaxLam = 2
 MaxPen = 2
 Longest_ = 1
INVARIANTS Lossless NotEmpty WellPlaced InBound LongStops FailStops StopsAtBound
PROPERTY Returns
CHECK_DEADLOCK FALSE
