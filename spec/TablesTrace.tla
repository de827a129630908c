----------------------------- MODULE TablesTrace -----------------------------
(* Product of the table automaton of every node with the derivatives of its  *)
(* definition; every reachable pair of state sets is compared.               *)
EXTENDS Tables
VARIABLES ci, nd, ss, rs, v
vars == <<ci, nd, ss, rs, v>>
C == Cases[ci]
Init == /\ ci \in 1..Len(Cases)
        /\ nd \in 0..Len(C.tab.nodes)
        /\ ss = IF nd = 0 THEN {} ELSE Closure(C.tab, {C.tab.nodes[nd].s})
        /\ rs = IF nd = 0 THEN {} ELSE {<<Body(C.g, C.tab.nodes[nd].n)>>}
        /\ v = "new"
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", nd, w) /\ UNCHANGED <<ci, nd, ss, rs>>
(* nd = 0: things seen once per case *)
Start == /\ v = "new" /\ nd = 0
         /\ IF C.crash = 1 THEN Bad("no crash")
            ELSE IF C.ok = 1 /\ {n.n : n \in Range(C.tab.nodes)} # {n.n : n \in Range(C.g.nodes)} THEN Bad("same nodes")
            ELSE IF C.ok = 1 /\ C.tab.nodes[1].n # C.g.nodes[1].n THEN Bad("same root")
            ELSE v' = "ok" /\ Verdict(C.id, "OK", 0, C.ok) /\ UNCHANGED <<ci, nd, ss, rs>>
Problem ==
  IF (Final \in ss) # (\E r \in rs : NullableR(C.g.ns, r)) THEN "complete: " \o (IF Final \in ss THEN "no" ELSE "yes")
  ELSE IF \E s \in Live(ss) : ~ NoIdleCycle(C.tab, s) THEN "cycle"
  ELSE IF \E s \in Live(ss) : ~ PushOk(C.g, C.tab, s) THEN "first tokens of a nested node"
  ELSE IF \E s \in Live(ss) : ~ MaskOk(C.g, C.tab, s) THEN "token types"
  ELSE ""
Look == /\ v = "new" /\ nd > 0
        /\ LET p == Problem IN IF p = "" THEN v' = "seen" /\ UNCHANGED <<ci, nd, ss, rs>> ELSE Bad(p)
Step == /\ v = "seen"
        /\ \E sym \in SymsT(C.tab, ss) \cup UNION {SymsR(C.g.ns, r) : r \in rs} :
             /\ ss' = StepT(C.tab, ss, sym) /\ rs' = DS(C.g.ns, rs, sym)
             /\ v' = "new" /\ UNCHANGED <<ci, nd>>
Next == Start \/ Look \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
