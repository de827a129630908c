SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 3
  Mode = "step"
  Own = TRUE
  Emit = TRUE
INVARIANTS Alike OnStack
CHECK_DEADLOCK FALSE
