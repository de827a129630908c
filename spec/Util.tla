-------------------------------- MODULE Util --------------------------------
(* Helpers shared by all specifications of the llx model. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CaseFold

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE FlattenSeq(_)
FlattenSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlattenSeq(Tail(s))

SelectIdx(s, P(_)) == {i \in 1..Len(s) : P(s[i])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SetToAscSeq(_)
SetToAscSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SetToAscSeq(S \ {m})

(* Verdict lines read by the harness. *)
Verdict(id, v, at, want) == PrintT(ToJson([id |-> id, v |-> v, at |-> at, want |-> want]))

(* The recorded cases, one record per line of the file named by $CASES. *)
Cases == ndJsonDeserialize(IOEnv.CASES)
=============================================================================
