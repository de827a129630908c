------------------------------ MODULE TreeTrace ------------------------------
(* Recorded edits and queries of real syntax trees. *)
EXTENDS Tree
VARIABLES ci, l, f, v
vars == <<ci, l, f, v>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ l = 0 /\ v = "run" /\ f = Empty(Len(Cases[ci].elems))
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", l, w) /\ UNCHANGED <<ci, l, f>>
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")
IsNode == [i \in 1..Len(C.elems) |-> C.elems[i].n = 1]
Do == /\ v = "run" /\ C.crash = 0 /\ l < Len(C.ops)
      /\ LET op == C.ops[l + 1] IN
         IF op.o \in Edits
         THEN IF ~Legal(f, op, IsNode) THEN l' = Len(C.ops) /\ UNCHANGED <<ci, f, v>>   \* not a tree edit, the rest is not judged
              ELSE LET n == Edit(f, op) IN
                   IF C.res[l + 1] = Links(n) THEN f' = n /\ l' = l + 1 /\ UNCHANGED <<ci, v>>
                   ELSE Bad(Links(n))
         ELSE LET w == Query(f, C.elems, op) IN
              IF C.res[l + 1] = w THEN l' = l + 1 /\ UNCHANGED <<ci, f, v>> ELSE Bad(w)
Done == /\ v = "run" /\ C.crash = 0 /\ l = Len(C.ops)
        /\ v' = "ok" /\ Verdict(C.id, "OK", l, 0) /\ UNCHANGED <<ci, l, f>>
Next == Crash \/ Do \/ Done
Spec == Init /\ [][Next]_vars
Inv == WellFormed(f)
==============================================================================
