---------------------------- MODULE MCSourceQueue ----------------------------
(* Exhaustive exploration of the queue on small sources.  The implementation *)
(* shape (current source, its position, waiting ring) is carried along and   *)
(* must always map to the ideal list.  Every transition is printed with a    *)
(* shortest path leading to it: the harness replays all of them.             *)
EXTENDS SourceQueue
CONSTANTS Lens, MaxList, MaxSnaps
LensV == <<2, 1, 0>>
VARIABLES list, snaps, cur, wait, isnaps, hist
vars == <<list, snaps, cur, wait, isnaps, hist>>
View == <<list, snaps, cur, wait, isnaps>>

Init == list = <<>> /\ snaps = <<>> /\ cur = <<0, 0>> /\ wait = <<>> /\ isnaps = <<>> /\ hist = <<>>

L(s) == SrcLen(Lens, s)
\* implementation-shaped steps
IAppend(s) == IF s = 0 \/ (L(s) = 0 /\ cur[1] # 0 /\ L(cur[1]) # 0) THEN UNCHANGED <<cur, wait>>
              ELSE IF cur[1] = 0 \/ L(cur[1]) = 0 THEN cur' = <<s, 0>> /\ UNCHANGED wait
              ELSE wait' = Append(wait, <<s, 0>>) /\ UNCHANGED cur
IPrepend(s) == IF s = 0 \/ (L(s) = 0 /\ cur[1] # 0 /\ L(cur[1]) # 0) THEN UNCHANGED <<cur, wait>>
               ELSE /\ wait' = IF cur[1] # 0 /\ L(cur[1]) # 0 THEN <<cur>> \o wait ELSE wait
                    /\ cur' = <<s, 0>>
INext == IF wait = <<>> THEN cur' = <<0, 0>> /\ UNCHANGED wait ELSE cur' = Head(wait) /\ wait' = Tail(wait)
ISeek(p) == UNCHANGED wait /\ cur' = IF cur[1] = 0 THEN cur ELSE <<cur[1], Clamp(p, 0, L(cur[1]))>>
IRestore(n) == cur' = isnaps[n][1] /\ wait' = isnaps[n][2]

Step(op) ==
  /\ list' = Apply(Lens, list, snaps, op)
  /\ snaps' = IF op.o = "snap" THEN Append(snaps, list) ELSE snaps
  /\ isnaps' = IF op.o = "snap" THEN Append(isnaps, <<cur, wait>>) ELSE isnaps
  /\ CASE op.o = "append" -> IAppend(op.a)
       [] op.o = "prepend" -> IPrepend(op.a)
       [] op.o = "next" -> INext
       [] op.o = "skip" -> IF op.a <= 0 THEN UNCHANGED <<cur, wait>> ELSE ISeek(cur[2] + op.a)
       [] op.o = "rewind" -> IF op.a <= 0 THEN UNCHANGED <<cur, wait>> ELSE ISeek(cur[2] - op.a)
       [] op.o = "seek" -> ISeek(op.a)
       [] op.o = "restore" -> IRestore(op.a)
       [] op.o = "snap" -> UNCHANGED <<cur, wait>>
  /\ hist' = Append(hist, op)
  /\ Len(list') <= MaxList
  /\ PrintT(ToJson([path |-> hist']))

Ops == {[o |-> x, a |-> s] : x \in {"append", "prepend"}, s \in 0..Len(Lens)}
       \cup {[o |-> "next", a |-> 0]}
       \cup {[o |-> x, a |-> n] : x \in {"skip", "rewind"}, n \in {-1, 0, 1, 2}}
       \cup {[o |-> "seek", a |-> n] : n \in {-1, 0, 1, 2, 3}}
       \cup (IF Len(snaps) < MaxSnaps THEN {[o |-> "snap", a |-> 0]} ELSE {})
       \cup {[o |-> "restore", a |-> n] : n \in 1..Len(snaps)}
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

Good == WellFormed(Lens, list)
Refines == list = (IF cur[1] = 0 THEN <<>> ELSE <<cur>> \o wait)
==============================================================================
