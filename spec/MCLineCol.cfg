SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 10, 13, 195, 169}
  MaxLen = 5
INVARIANTS CacheAgrees RoundTrip Monotone Idempotent NoCR NormLen
CHECK_DEADLOCK FALSE
