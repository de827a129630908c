SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  N = 5
VIEW View
INVARIANTS Inv Agree WalkAll WalkRtl
CHECK_DEADLOCK FALSE
