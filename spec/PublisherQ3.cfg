SPECIFICATION Spec
CONSTANTS
  Subs = {s1, s2, s3}
  Pens <- MCPens
SYMMETRY Sym
INVARIANTS NothingLost GapOk TopOk Served Popped
CHECK_DEADLOCK FALSE
