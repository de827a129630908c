SPECIFICATION Spec
CONSTANTS
  N = 4
  Sides = {0, 1}
  Fulls = {0, 1}
  Two = TRUE
  Fails = {0, 3}
INVARIANTS DerivationHolds PredictionHolds LongestHolds UnseenHolds OrderHolds WholeHolds StopHolds FullHolds FailHolds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
