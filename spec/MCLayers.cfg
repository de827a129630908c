SPECIFICATION Spec
CONSTANTS
  N = 4
  Sides = {1}
  Fulls = {1}
  Two = FALSE
INVARIANTS StreamHolds PeekHolds IndentHolds BalanceHolds RestrictHolds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
