------------------------------- MODULE MCDeque -------------------------------
(* The ring buffer refines the ideal deque; every transition of the bounded  *)
(* model is printed for replay.                                              *)
EXTENDS Containers
CONSTANTS MaxLen
VARIABLES ideal, ring, hist
View == <<Len(ideal), ring.cap, ring.head>>
Init == ideal = <<>> /\ ring = Ring(<<>>) /\ hist = <<>>
Ops == {[o |-> x, a |-> <<Len(hist) + 1>>] : x \in {"append", "prepend"}}
       \cup {[o |-> x, a |-> <<>>] : x \in {"first", "last", "clear"}}
       \cup {[o |-> "peek", a |-> <<i>>] : i \in {-Len(ideal) - 1, -Len(ideal), -1, 0, Len(ideal) - 1, Len(ideal)}}
       \cup {[o |-> "fill", a |-> [i \in 1..n |-> 100 + i]] : n \in {0, 3, 4, 7, 8}}
Do(op) == /\ ideal' = DqStep(ideal, op) /\ ring' = RStep(ring, op) /\ hist' = Append(hist, op)
          /\ Len(ideal') <= MaxLen
          /\ PrintT(ToJson([path |-> hist']))
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_<<ideal, ring, hist>>
Refines == RItems(ring) = ideal
Room == RLen(ring) < ring.cap /\ ring.cap >= 4
=============================================================================
