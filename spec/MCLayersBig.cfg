SPECIFICATION Spec
CONSTANTS
  N = 4
  Sides = {0, 1}
  Fulls = {0, 1}
  Two = TRUE
INVARIANTS StreamHolds PeekHolds IndentHolds BalanceHolds RestrictHolds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
