CONSTANTS
  Latin = 255
  Wide = 65536
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
