-------------------------- MODULE SourceQueueTrace --------------------------
(* Recorded histories of the real source.Queue. *)
EXTENDS SourceQueue
VARIABLES ci, l, list, snaps, v
vars == <<ci, l, list, snaps, v>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ l = 0 /\ list = <<>> /\ snaps = <<>> /\ v = "run"
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", l, w) /\ UNCHANGED <<ci, l, list, snaps>>
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")
Do == /\ v = "run" /\ C.crash = 0 /\ l < Len(C.ops)
      /\ LET op == C.ops[l + 1]
             n == Apply(C.lens, list, snaps, op)
             w == Shown(C.lens, list, n, op)
         IN IF C.res[l + 1] = w
            THEN /\ list' = n /\ l' = l + 1
                 /\ snaps' = IF op.o = "snap" THEN Append(snaps, list) ELSE snaps
                 /\ UNCHANGED <<ci, v>>
            ELSE Bad(w)
Done == /\ v = "run" /\ C.crash = 0 /\ l = Len(C.ops)
        /\ v' = "ok" /\ Verdict(C.id, "OK", l, 0) /\ UNCHANGED <<ci, l, list, snaps>>
Next == Crash \/ Do \/ Done
Spec == Init /\ [][Next]_vars
Good == WellFormed(C.lens, list)
=============================================================================
