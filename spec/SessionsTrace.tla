---------------------------- MODULE SessionsTrace ---------------------------
(* Recorded histories of several sessions against Sessions.tla: one step of   *)
(* the trace is one event.  The scripts are histories of the same sessions,   *)
(* each alone in a process of its own.                                        *)
EXTENDS Sessions, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, pos, n, v
vars == <<ci, pos, n, v>>
C == Cases[ci]
Init == /\ ci \in 1..Len(Cases)
        /\ pos = Begin(C.scripts) /\ n = 0 /\ v = ""
Verdict == IF C.crash = 1 THEN "crash"
           ELSE IF n < Len(C.hist) THEN "event"     \* the next event is not the session's own next one
           ELSE IF ~Over(C.scripts, pos) THEN "unfinished"
           ELSE IF C.same # 1 THEN "modified"       \* grammar tables, source texts or hook sets
           ELSE ""
Event == /\ v = "" /\ C.crash = 0 /\ n < Len(C.hist)
         /\ LET h == C.hist[n + 1] IN /\ Can(C.scripts, pos, h.s, h.e)
                                      /\ pos' = Step(pos, h.s)
         /\ n' = n + 1 /\ UNCHANGED <<ci, v>>
Report == /\ v = "" /\ ~ENABLED Event
          /\ v' = IF Verdict = "" THEN "OK" ELSE "BAD"
          /\ PrintT(ToJson([id |-> C.id, v |-> v', want |-> IF Verdict = "" THEN C.mode ELSE Verdict,
                            at |-> n, pos |-> pos]))
          /\ UNCHANGED <<ci, pos, n>>
Next == Event \/ Report
Spec == Init /\ [][Next]_vars
\* at every moment the history is an interleaving of prefixes of the scripts
Prefixes == \A s \in 1..Len(C.scripts) : pos[s] <= Len(C.scripts[s])
=============================================================================
