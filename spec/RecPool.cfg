SPECIFICATION Spec
CONSTANTS
  Obj = {o1, o2, o3}
  Owners = {w1, w2, w3}
  NoObj = NoObj
  MaxLen = 1
SYMMETRY Sym
INVARIANTS Exclusive NotFree LikeNew PoolClean
CHECK_DEADLOCK FALSE
