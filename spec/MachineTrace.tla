---------------------------- MODULE MachineTrace ----------------------------
(* Recorded parses of the real parser against the machine. *)
EXTENDS Machine
VARIABLES ci, run, l, m, v
vars == <<ci, run, l, m, v>>
C == Cases[ci]
TypeIx(n) == (CHOOSE i \in 1..Len(C.tab.tokens) : C.tab.tokens[i].n = n /\ C.tab.tokens[i].lit = 0) - 1
K == [tab |-> C.tab, types |-> [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> TypeIx(C.types[i].n)]],
      ins |-> C.ins, cfg |-> C.cfg, sides |-> C.sides, full |-> C.full, failAt |-> C.failAt, stopAt |-> C.stopAt]
R == C.runs[run]

RECURSIVE Queue(_, _, _)
Queue(lens, i, q) == IF i > Len(lens) THEN q ELSE Queue(lens, i + 1, DoAppend(lens, q, i))
Init == /\ ci \in 1..Len(Cases) /\ run = 1 /\ l = 0 /\ v = "run"
        /\ m = [ph |-> "new", ev |-> <<>>, err |-> NoErr,
                q |-> DoSeek(Lens(C.ins), Queue(Lens(C.ins), 1, <<>>), C.seek)]
Stay == UNCHANGED <<ci, run, l, m>>
Say(w) == v' = w /\ Stay
Bad(at, w) == v' = "bad" /\ Verdict(C.id, "BAD", at, w) /\ Stay
Crash == v = "run" /\ C.crash = 1 /\ C.hang = 0 /\ Bad(0, "no crash")
Skip == v = "run" /\ C.crash = 0 /\ C.ok = 0 /\ v' = "ok" /\ Verdict(C.id, "OK", 0, "description rejected") /\ Stay
Big == v = "run" /\ m.err.k = "big" /\ v' = "ok" /\ Verdict(C.id, "OK", 0, "too many variants") /\ Stay
Live == v = "run" /\ m.err.k # "big" /\ C.crash = 0 /\ C.ok = 1
(* after a cancellation a parse may end sooner than the machine does *)
Early(n) == /\ n.can /\ R.err.k = "ctx" /\ R.res = 0 /\ Len(R.log) >= C.stopAt
            /\ LET k == Len(R.log) - l IN k >= 0 /\ k <= Len(n.ev) /\ SubSeq(R.log, l + 1, Len(R.log)) = SubSeq(n.ev, 1, k)
Follow(n) ==                                \* the calls made in this step are the next ones recorded
  LET k == Len(n.ev)
  IN IF l + k <= Len(R.log) /\ SubSeq(R.log, l + 1, l + k) = n.ev
     THEN m' = n /\ l' = l + k /\ UNCHANGED <<ci, run, v>>
     ELSE IF Early(n) THEN v' = "ok" /\ Verdict(C.id, "OK", run, "ctx early") /\ Stay
     ELSE Bad(<<run, l>>, n.ev)
Begin == Live /\ m.ph = "new" /\ Follow(Open(K, m.q))
Move == Live /\ m.ph # "new" /\ ~ Over(m) /\ Follow(Step(K, m))
Want == IF Failed(m) THEN [err |-> m.err, res |-> 0, q |-> <<>>, more |-> FALSE]
        ELSE [err |-> NoErr, res |-> m.last, q |-> m.q, more |-> FALSE]
Same1(e, r) == e.k = r.k /\ e.code = Max(0, r.code) /\ e.line = r.line /\ e.col = r.col /\ e.src = r.src
GotErr == IF R.err.k # "llx" THEN [NoErr EXCEPT !.k = R.err.k] ELSE [k |-> R.err.k, code |-> IF R.err.k = "llx" THEN R.err.code ELSE 0, line |-> R.err.line, col |-> R.err.col, src |-> R.err.src]
WantErr == IF m.err.src = "" THEN m.err ELSE [m.err EXCEPT !.src = C.names[CHOOSE i \in 1..Len(C.names) : SrcName(i) = m.err.src]]
ExpOk == \/ ~ (Failed(m) /\ m.err.code \in {201, 202}) \/ R.err.exp = "?"
         \/ R.err.exp = Expected(K, Last(m.st).state)
End == /\ Live /\ m.ph # "new" /\ Over(m)
       /\ IF /\ l = Len(R.log) /\ GotErr = WantErr /\ R.err.where = 1
             /\ R.res = (IF Failed(m) THEN 0 ELSE m.last)
             /\ (~ Failed(m)) => R.q = m.q
             /\ C.exps = 1 => ExpOk
          THEN IF run = Len(C.runs)
               THEN v' = "ok" /\ Verdict(C.id, "OK", run, IF Failed(m) THEN m.err.k \o ToString(m.err.code) ELSE "success") /\ Stay
               ELSE run' = run + 1 /\ l' = 0 /\ m' = [ph |-> "new", ev |-> <<>>, err |-> NoErr, q |-> m.q] /\ UNCHANGED <<ci, v>>
          ELSE IF l = Len(R.log) /\ Early([m EXCEPT !.ev = <<>>]) THEN v' = "ok" /\ Verdict(C.id, "OK", run, "ctx early") /\ Stay
          ELSE Bad(<<run, l>>, [err |-> m.err, res |-> IF Failed(m) THEN 0 ELSE m.last, q |-> m.q, calls |-> m.calls])
(* a parse that did not end: was it bound to end? *)
Hung == v = "run" /\ C.crash = 1 /\ C.hang = 1 /\ m.err.k # "big"
HungMove == /\ Hung /\ (m.ph = "new" \/ ~ Over(m))
            /\ m' = (IF m.ph = "new" THEN Open(K, m.q) ELSE Step(K, m)) /\ UNCHANGED <<ci, run, l, v>>
HungEnd == /\ Hung /\ m.ph # "new" /\ Over(m)
           /\ IF Failed(m) \/ run = C.parses THEN Bad(0, "the parse ends")
              ELSE run' = run + 1 /\ m' = [ph |-> "new", ev |-> <<>>, err |-> NoErr, q |-> m.q] /\ UNCHANGED <<ci, l, v>>
Next == HungMove \/ HungEnd \/ Big \/ Crash \/ Skip \/ Begin \/ Move \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
