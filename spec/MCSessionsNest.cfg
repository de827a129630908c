SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 3
  Mode = "nest"
  Own = TRUE
  Emit = TRUE
INVARIANTS Alike OnStack
CHECK_DEADLOCK FALSE
