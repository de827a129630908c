---------------------------- MODULE LineColTrace ----------------------------
(* Recorded query sequences of the real source.Source, judged step by step. *)
EXTENDS LineCol
VARIABLES ci, l, cache, v
vars == <<ci, l, cache, v>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ l = 0 /\ cache = 0 /\ v = "run"

Want(op) ==
  CASE op[1] = 1 -> <<PosOf(C.content, op[2], op[3]), 0>>
    [] OTHER -> LineColOf(C.content, op[2])

Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", l, w) /\ UNCHANGED <<ci, l, cache>>
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")
Norm == /\ v = "run" /\ C.crash = 0 /\ C.k = "nls"
        /\ IF C.res = Normalized(C.content)
           THEN v' = "ok" /\ Verdict(C.id, "OK", 0, 0) /\ UNCHANGED <<ci, l, cache>>
           ELSE Bad(Normalized(C.content))
Query == /\ v = "run" /\ C.crash = 0 /\ C.k = "src" /\ l < Len(C.ops)
         /\ LET op == C.ops[l + 1] IN
              IF C.res[l + 1] = Want(op)
              THEN /\ l' = l + 1 /\ UNCHANGED <<ci, v>>
                   /\ cache' = IF op[1] # 1 /\ op[2] >= 0 /\ op[2] < Len(C.content)
                               THEN FindLine(LineStarts(C.content), cache, op[2]) ELSE cache
              ELSE Bad(Want(op))
Done == /\ v = "run" /\ C.crash = 0 /\ C.k = "src" /\ l = Len(C.ops)
        /\ IF C.after = C.content
           THEN v' = "ok" /\ Verdict(C.id, "OK", l, 0) /\ UNCHANGED <<ci, l, cache>>
           ELSE Bad("content is unchanged")
Next == Crash \/ Norm \/ Query \/ Done
Spec == Init /\ [][Next]_vars
CacheSound == cache > 0 => cache <= Lines(C.content)
=============================================================================
