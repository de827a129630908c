SPECIFICATION Spec
CONSTANTS
  Nodes = 2
  N = 4
VIEW View
INVARIANTS Inv Agree WalkAll WalkRtl
CHECK_DEADLOCK FALSE
