------------------------------- MODULE MCTree -------------------------------
(* Exhaustive exploration of forests; each transition is printed for replay.  *)
EXTENDS Tree
CONSTANTS Nodes, N                       \* elements 1..Nodes are nodes, the rest are tokens
VARIABLES f, hist
Init == f = Empty(N) /\ hist = <<>>
IsNode == [i \in 1..N |-> i <= Nodes]
Ops == {[o |-> x, a |-> <<i, j>>] : x \in {"append", "prepend", "replace"}, i \in 0..N, j \in 0..N}
       \cup {[o |-> "child", a |-> <<i, j>>] : i \in 0..Nodes, j \in 0..N}
       \cup {[o |-> "add", a |-> <<i, j, k>>] : i \in 1..Nodes, j \in 0..N, k \in 0..N}
       \cup {[o |-> "remove", a |-> <<i, j>>] : i \in 1..Nodes, j \in 0..N}
       \cup {[o |-> "detach", a |-> <<i>>] : i \in 0..N}
Do(op) == /\ Legal(f, op, IsNode)
          /\ f' = Edit(f, op) /\ hist' = Append(hist, op)
          /\ PrintT(ToJson([path |-> hist']))
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_<<f, hist>>
View == f
Inv == WellFormed(f)
\* links agree with each other
Agree == LET k == Links(f) IN \A x \in 1..N :
  /\ k[x][2] # 0 => k[k[x][2]][3] = x
  /\ k[x][3] # 0 => k[k[x][3]][2] = x
  /\ k[x][1] # 0 /\ k[x][2] = 0 => k[k[x][1]][4] = x
  /\ k[x][1] # 0 /\ k[x][3] = 0 => k[k[x][1]][5] = x
  /\ (k[x][4] = 0) = (k[x][5] = 0)
\* walking visits each element of a subtree once, in document order
WalkAll == \A x \in 1..N :
  LET w == Walk(f, 0, WalkInit(x), 0, <<>>) IN [i \in 1..Len(w) |-> w[i][1]] = Pre(f, x)
WalkRtl == \A x \in 1..N :
  LET w == Walk(f, 1, WalkInit(x), 0, <<>>) IN {w[i][1] : i \in 1..Len(w)} = Range(Pre(f, x)) /\ Len(w) = Len(Pre(f, x))
=============================================================================
