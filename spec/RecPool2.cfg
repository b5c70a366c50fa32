SPECIFICATION Spec
CONSTANTS
  Obj = {o1, o2}
  Owners = {w1, w2}
  NoObj = NoObj
  MaxLen = 2
SYMMETRY Sym
INVARIANTS Exclusive NotFree LikeNew PoolClean
CHECK_DEADLOCK FALSE
