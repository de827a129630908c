--------------------------- MODULE ContainersTrace ---------------------------
(* Recorded histories of internal/queue and internal/ints. *)
EXTENDS Containers
VARIABLES ci, l, st, v
vars == <<ci, l, st, v>>
C == Cases[ci]
Init == /\ ci \in 1..Len(Cases) /\ l = 0 /\ v = "run"
        /\ st = IF Cases[ci].k = "deque" THEN Cases[ci].init ELSE <<{}, {}, {}>>
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", l, w) /\ UNCHANGED <<ci, l, st>>
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")
Ready == v = "run" /\ C.crash = 0 /\ l < Len(C.ops)
Deque == /\ Ready /\ C.k = "deque"
         /\ LET op == C.ops[l + 1]
                n == DqStep(st, op)
                w == [ret |-> DqRet(st, op), items |-> n, len |-> Len(n), empty |-> B(n = <<>>)]
            IN IF C.res[l + 1] = w THEN st' = n /\ l' = l + 1 /\ UNCHANGED <<ci, v>> ELSE Bad(w)
IntSet == /\ Ready /\ C.k = "set"
          /\ LET op == C.ops[l + 1]
                 n == StStep(st, op)
                 w == [ret |-> StRet(st, op), sets |-> [i \in 1..3 |-> SetToAscSeq(n[i])]]
             IN IF C.res[l + 1] = w THEN st' = n /\ l' = l + 1 /\ UNCHANGED <<ci, v>> ELSE Bad(w)
Done == /\ v = "run" /\ C.crash = 0 /\ l = Len(C.ops)
        /\ v' = "ok" /\ Verdict(C.id, "OK", l, 0) /\ UNCHANGED <<ci, l, st>>
Next == Crash \/ Deque \/ IntSet \/ Done
Spec == Init /\ [][Next]_vars
==============================================================================
