CONSTANTS
  Latin = 2
  Wide = 5
  Max = 8
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
