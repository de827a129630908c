SPECIFICATION Spec
CONSTANTS
  N = 2
  Sides = {0, 1}
  Fulls = {0, 1}
  Two = TRUE
  Fails = {0, 2, 3, 5}
INVARIANTS DerivationHolds PredictionHolds LongestHolds UnseenHolds OrderHolds WholeHolds StopHolds FullHolds FailHolds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
