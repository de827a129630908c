----------------------------- MODULE MCSessions -----------------------------
(* All schedules of N sessions of K steps: interleaved ("step": any session   *)
(* may go on at any time) and nested ("nest": a session is started inside a   *)
(* step of another one and runs to its end before that goes on).  Complete    *)
(* schedules are printed and performed by the harness on real sessions.       *)
(*                                                                            *)
(* What parser.Parse keeps per parse is modelled too: each session registers  *)
(* hooks for literals (one per step) that the grammar may not have; numbers   *)
(* of new ones are given in order.  Own: the table of numbers is the session's *)
(* copy, as in the code.  With Own = FALSE (a table shared by the parses of a *)
(* parser) Alike does not hold: MCSessionsShared.cfg, a control of the model. *)
EXTENDS Sessions, FiniteSets, TLC, Json
CONSTANTS N, K, Mode, Own, Emit
VARIABLES pos, stack, order, table
vars == <<pos, stack, order, table>>
S == 1..N
Lits == {"a", "b", "c"}
Known == [l \in {"a"} |-> 1]                        \* literals of the grammar
Wants(s, k) == <<"b", "c", "a", "b">>[((s + k) % 3) + 1]
Add(t, l) == IF l \in DOMAIN t THEN t ELSE t @@ (l :> Cardinality(DOMAIN t) + 1)
RECURSIVE AloneTab(_, _)
AloneTab(s, k) == IF k = 0 THEN Known ELSE Add(AloneTab(s, k - 1), Wants(s, k))
Tab(s) == IF Own THEN table[s] ELSE table[1]

Init == pos = [s \in S |-> 0] /\ stack = <<>> /\ order = <<>> /\ table = [s \in S |-> Known]
Register(s) == LET t == Add(Tab(s), Wants(s, pos[s] + 1)) IN
  table' = [x \in S |-> IF ~Own \/ x = s THEN t ELSE table[x]]
Go(s) == /\ pos[s] < K
         /\ pos' = Step(pos, s)
         /\ Register(s)

Interleave == /\ Mode = "step"
              /\ \E s \in S : Go(s) /\ order' = Append(order, <<s>>)
              /\ UNCHANGED stack

First == CHOOSE s \in S : pos[s] = 0 /\ \A x \in S : pos[x] = 0 => x >= s
Nest == /\ Mode = "nest"
        /\ IF stack = <<>> THEN /\ \E s \in S : pos[s] = 0
                                /\ Go(First) /\ stack' = <<First>> /\ UNCHANGED order
           ELSE LET t == stack[Len(stack)] IN
                \/ pos[t] < K /\ Go(t) /\ UNCHANGED <<stack, order>>
                \/ /\ pos[t] = K
                   /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<pos, order, table>>
                \/ \E s \in S : /\ pos[s] = 0 /\ Go(s)
                                /\ stack' = Append(stack, s)
                                /\ order' = Append(order, <<t, pos[t], s>>)
Done == \A s \in S : pos[s] = K
Next == (Interleave \/ Nest) /\ (Emit /\ stack' = <<>> /\ (\A s \in S : pos'[s] = K) => PrintT(ToJson([path |-> order', mode |-> Mode])))
Spec == Init /\ [][Next]_vars

\* a session sees what it would see alone
Alike == \A s \in S : pos[s] > 0 => Tab(s)[Wants(s, pos[s])] = AloneTab(s, pos[s])[Wants(s, pos[s])]
OnStack == \A i \in 1..Len(stack) : pos[stack[i]] > 0 /\ \A j \in 1..Len(stack) : i # j => stack[i] # stack[j]
=============================================================================
