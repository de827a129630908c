------------------------------- MODULE LineCol -------------------------------
(* Lines and columns of a source text (property C08).                        *)
(* Texts are sequences of bytes, positions are 0-based byte offsets.         *)
EXTENDS Util

LF == 10
CR == 13
At(c, p) == c[p + 1]                       \* byte at offset p

(* ---- UTF-8 as decoded by Go: a malformed sequence is one rune per byte ---- *)
Cont(b) == b >= 128 /\ b <= 191
RuneLen(c, p, end) ==                      \* length of the rune at p in c[p..end-1]
  LET b0 == At(c, p)
      has(n) == p + n <= end
      b(n) == At(c, p + n)
  IN CASE b0 < 128 -> 1
       [] b0 >= 194 /\ b0 <= 223 -> IF has(2) /\ Cont(b(1)) THEN 2 ELSE 1
       [] b0 >= 224 /\ b0 <= 239 ->
            IF has(3) /\ Cont(b(1)) /\ Cont(b(2))
               /\ (b0 = 224 => b(1) >= 160) /\ (b0 = 237 => b(1) <= 159)
            THEN 3 ELSE 1
       [] b0 >= 240 /\ b0 <= 244 ->
            IF has(4) /\ Cont(b(1)) /\ Cont(b(2)) /\ Cont(b(3))
               /\ (b0 = 240 => b(1) >= 144) /\ (b0 = 244 => b(1) <= 143)
            THEN 4 ELSE 1
       [] OTHER -> 1

RECURSIVE RuneCount(_, _, _)
RuneCount(c, p, end) == IF p >= end THEN 0 ELSE 1 + RuneCount(c, p + RuneLen(c, p, end), end)

(* ---- definitions the reports must agree with ---- *)
Newlines(c, p) == {i \in 0..(p - 1) : At(c, i) = LF}
RECURSIVE LineStart(_, _)
LineStart(c, p) == IF p = 0 THEN 0 ELSE IF At(c, p - 1) = LF THEN p ELSE LineStart(c, p - 1)
LineColOf(c, pos) ==
  LET p == Clamp(pos, 0, Len(c))
  IN <<Cardinality(Newlines(c, p)) + 1, RuneCount(c, LineStart(c, p), p) + 1>>

Lines(c) == Cardinality(Newlines(c, Len(c))) + 1
LineStarts(c) == <<0>> \o SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : c[i] = LF)
StartOf(c, line) == LineStarts(c)[line]    \* first offset of a line
RECURSIVE Advance(_, _, _)
Advance(c, p, col) ==
  IF col <= 1 \/ p >= Len(c) THEN p
  ELSE IF At(c, p) = LF THEN p
  ELSE Advance(c, p + RuneLen(c, p, Len(c)), col - 1)
PosOf(c, line, col) ==
  IF line <= 0 \/ col <= 0 THEN 0
  ELSE IF line > Lines(c) THEN Len(c)
  ELSE Advance(c, StartOf(c, line), col)

RECURSIVE Normalized(_)
Normalized(c) ==
  IF c = <<>> THEN <<>>
  ELSE IF Head(c) # CR THEN <<Head(c)>> \o Normalized(Tail(c))
  ELSE <<LF>> \o Normalized(IF Len(c) > 1 /\ c[2] = LF THEN Tail(Tail(c)) ELSE Tail(c))

(* ---- the line index with its cached last answer (implementation shape) ---- *)
RECURSIVE ScanUp(_, _, _)
ScanUp(ls, i, pos) == IF i < Len(ls) /\ ls[i + 1] <= pos THEN ScanUp(ls, i + 1, pos) ELSE i
RECURSIVE Bisect(_, _, _, _)
Bisect(ls, lo, hi, pos) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF ls[m] <= pos THEN Bisect(ls, m, hi, pos) ELSE Bisect(ls, lo, m - 1, pos)
FindLine(ls, cache, pos) ==                \* cache = 0: nothing cached
  IF cache > 0 /\ ls[cache] <= pos THEN ScanUp(ls, cache, pos)
  ELSE Bisect(ls, 1, IF cache > 0 THEN cache ELSE Len(ls), pos)
==============================================================================
