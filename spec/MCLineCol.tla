------------------------------ MODULE MCLineCol ------------------------------
(* Every query order on every small text: the cached search always agrees    *)
(* with the definition; conversions round trip; normalization is idempotent. *)
EXTENDS LineCol
CONSTANTS Alphabet, MaxLen

VARIABLES text, cache, last
vars == <<text, cache, last>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

Init == text \in Texts /\ cache = 0 /\ last = <<0, 1>>
Query(pos) ==
  IF pos < 0 \/ pos >= Len(text)
  THEN UNCHANGED cache /\ last' = <<pos, LineColOf(text, pos)[1]>>
  ELSE /\ cache' = FindLine(LineStarts(text), cache, pos)
       /\ last' = <<pos, cache'>>
Next == \E pos \in -1..(Len(text) + 1) : Query(pos) /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

CacheAgrees == last[2] = LineColOf(text, last[1])[1]
Boundary(c, p) ==                          \* p starts a rune of its line
  LET s == LineStart(c, p) IN Advance(c, s, RuneCount(c, s, p) + 1) = p
RoundTrip == \A p \in 0..Len(text) :
  LET lc == LineColOf(text, p)
  IN Boundary(text, p) => PosOf(text, lc[1], lc[2]) = p
Monotone == \A p, q \in 0..Len(text) : p < q =>
  LineColOf(text, p)[1] <= LineColOf(text, q)[1]
Idempotent == Normalized(Normalized(text)) = Normalized(text)
NoCR == \A i \in 1..Len(Normalized(text)) : Normalized(text)[i] # CR
NormLen == Len(Normalized(text)) = Len(text) - Cardinality({i \in 1..(Len(text) - 1) : text[i] = CR /\ text[i+1] = LF})
==============================================================================
