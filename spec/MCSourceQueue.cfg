SPECIFICATION Spec
CONSTANTS
  Lens <- LensV
  MaxList = 2
  MaxSnaps = 1
VIEW View
INVARIANTS Good Refines
CHECK_DEADLOCK FALSE
