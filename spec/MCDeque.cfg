SPECIFICATION Spec
CONSTANT MaxLen = 18
VIEW View
INVARIANTS Refines Room
CHECK_DEADLOCK FALSE
