SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 3
  Mode = "step"
  Own = FALSE
  Emit = FALSE
INVARIANTS Alike OnStack
CHECK_DEADLOCK FALSE
