----------------------------- MODULE MCMachine -----------------------------
(* The machine of Machine.tla closed over a set of small grammars: all texts *)
(* up to N pieces of the grammar's alphabet, in one source or cut in two,    *)
(* with and without side tokens and the full-source option.  The properties  *)
(* are stated here without using the machine's own transitions: derivations  *)
(* and prediction from the description (C01, C02), longest variants by sets  *)
(* of configurations (C03), the node protocol (C04), where a parse stops     *)
(* (C09), failures (C21), termination.                                       *)
EXTENDS Machine, Predict
CONSTANTS N, Sides, Fulls, Two, Fails
VARIABLES ci, ins, sides, full, fail, m, log, look
vars == <<ci, ins, sides, full, fail, m, log, look>>
C == Cases[ci]
G == C.g
T == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
K == [tab |-> C.tab, types |-> T, ins |-> ins, cfg |-> C.cfg, sides |-> sides, full |-> full, failAt |-> fail, stopAt |-> 0]
RECURSIVE Queue(_, _, _)
Queue(lens, i, q) == IF i > Len(lens) THEN q ELSE Queue(lens, i + 1, DoAppend(lens, q, i))

Words == UNION {[1..k -> 1..Len(C.alpha)] : k \in 0..N}
Text(w) == FlattenSeq([i \in 1..Len(w) |-> C.alpha[w[i]]])
Init == /\ ci \in 1..Len(Cases) /\ sides \in Sides /\ full \in Fulls /\ fail \in Fails
        /\ \E w \in Words : \E k \in 0..(IF Two THEN Len(w) ELSE 0) :
             ins = IF k = 0 THEN <<Text(w)>> ELSE <<Text(SubSeq(w, 1, k)), Text(SubSeq(w, k + 1, Len(w)))>>
        /\ m = Open(K, Queue(Lens(ins), 1, <<>>)) /\ log = m.ev /\ look = <<>>
(* the next step chooses among several rules *)
Chooses == m.ph = "rule" /\ m.ap = <<>> /\ Len(FindRules(K, m.tok, Last(m.st).state)) > 1
Next == /\ ~ Over(m)
        /\ m' = Step(K, m) /\ log' = log \o m'.ev
        /\ look' = IF Chooses /\ ~ Failed(m') THEN <<[state |-> Last(m.st).state, toks |-> Resolve(K, m, m.tok).toks, ev |-> m'.ev]>> ELSE <<>>
        /\ UNCHANGED <<ci, ins, sides, full, fail>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Good == m.ph = "done" /\ ~ Failed(m)
Taken == SelectSeq(log, LAMBDA e : e.e = "tok")
Plain == SelectSeq(Taken, LAMBDA e : ~ IsSide(K, e.tok))

(* ---- C01: the calls are a derivation ------------------------------------ *)
Bottom == [i |-> -1, n |-> "?", rs |-> {}, wait |-> ""]
RECURSIVE Derive(_, _, _)                      \* what is wrong with the calls from k on, "" if nothing
Derive(k, stk, whole) ==
  IF k > Len(log) THEN (IF whole /\ stk # <<>> THEN "open" ELSE "")
  ELSE LET e == log[k]
           top == IF stk = <<>> THEN Bottom ELSE Last(stk)
           set(t) == Append(Front(stk), t)
       IN CASE e.e = "new" -> LET d == DS(G.ns, top.rs, <<"node", e.n>>)
                              IN IF e.i # top.i \/ d = {} \/ top.wait # "" THEN "child" ELSE Derive(k + 1, set([top EXCEPT !.rs = d, !.wait = "open" \o e.n]), whole)
            [] e.e = "open" -> IF (stk = <<>> /\ (k > 1 \/ e.n # G.nodes[1].n)) \/ (stk # <<>> /\ top.wait # "open" \o e.n) THEN "node"
                               ELSE Derive(k + 1, (IF stk = <<>> THEN <<>> ELSE set([top EXCEPT !.wait = "kid" \o e.n])) \o <<[i |-> e.i, n |-> e.n, rs |-> {<<Body(G, e.n)>>}, wait |-> ""]>>, whole)
            [] e.e = "tok" -> IF IsSide(K, e.tok) THEN (IF e.i = top.i THEN Derive(k + 1, stk, whole) ELSE "side token")
                              ELSE LET d == UNION {DS(G.ns, top.rs, s) : s \in SymbolsOf(G, C.lits, e.tok.n, e.tok.x)}
                                   IN IF e.i # top.i \/ d = {} \/ top.wait # "" THEN "token" ELSE Derive(k + 1, set([top EXCEPT !.rs = d]), whole)
            [] e.e = "end" -> IF e.i # top.i \/ ~ (\E r \in top.rs : NullableR(G.ns, r)) \/ top.wait # "" THEN "end"
                              ELSE Derive(k + 1, Front(stk), whole)
            [] e.e = "kid" -> IF e.i # top.i \/ top.wait # "kid" \o e.n THEN "result" ELSE Derive(k + 1, set([top EXCEPT !.wait = ""]), whole)
            [] OTHER -> Derive(k + 1, stk, whole)
DerivationHolds == Over(m) => Derive(1, <<>>, Good) = ""

(* ---- C02: what a predictive parser does ---------------------------------- *)
RECURSIVE Predicted(_, _, _)
Predicted(stk, q, n) ==                        \* [a, tok, n]: outcome, offending token, tokens taken
  IF stk = <<>> THEN [a |-> "success", tok |-> NilTok, n |-> n]
  ELSE LET r == TokenAt(T, ins, q)
           syms == IF r.err # NoErr THEN {} ELSE SymbolsOf(G, C.lits, r.tok.n, r.tok.x)
           mv == Move(G, stk, syms)
           set(d) == Append(Front(stk), [Last(stk) EXCEPT !.r = d])
       IN CASE mv.a = "unclear" -> [a |-> "unclear", tok |-> NilTok, n |-> n]
            [] mv.a = "fail" -> [a |-> IF r.err # NoErr THEN "lexical" ELSE "fail", tok |-> r.tok, n |-> n]
            [] mv.a = "pop" -> Predicted(Front(stk), q, n)
            [] mv.a = "enter" -> Predicted(Append(set(mv.d), [n |-> mv.n, r |-> NodeBody(G, mv.n)]), q, n)
            [] mv.a = "take" -> Predicted(set(mv.d), r.q, n + 1)
OneGroup == \A y \in Range(T) : y.grp = 0
PredictionHolds ==
  Over(m) /\ fail = 0 /\ OneGroup /\ NoEmptyNodes(G) =>
    LET p == Predicted(<<[n |-> G.nodes[1].n, r |-> NodeBody(G, G.nodes[1].n)]>>, Queue(Lens(ins), 1, <<>>), 0)
    IN CASE p.a = "unclear" -> TRUE
         [] p.a = "success" -> /\ Len(Plain) = p.n
                               /\ (Failed(m) => full = 1 /\ m.err.code \in {RemainingErr, WrongChar, BadToken})
         [] p.a = "fail" -> m.err = ErrAt(ins, IF p.tok.t = EoiT THEN 201 ELSE 202, p.tok.s, p.tok.p) /\ Len(Plain) = p.n
         [] p.a = "lexical" -> m.err.code \in {WrongChar, BadToken} /\ Len(Plain) = p.n

(* ---- C03: the variant chosen consumes as much as any other ---------------- *)
(* configurations: stacks of states inside the node                           *)
Pops(st) == PopBranch(st)
Moved(st, r) == Pops(LET a == IF r[2] = Repeat THEN st ELSE Append(Front(st), r[2]) IN IF r[3] = Same THEN a ELSE Append(a, K.tab.nodes[r[3] + 1].s))
Uses(tok, r) == (r[3] = Same /\ r[1] # AnyT) \/ tok = NilTok
RECURSIVE Settle(_, _, _, _)                   \* all configurations reached without the token, and those after it
Settle(tok, todo, seen, after) ==
  IF todo = {} THEN [seen |-> seen, after |-> after]
  ELSE LET step == {<<Moved(st, r), Uses(tok, r)>> : <<st, r>> \in UNION {{<<st, r>> : r \in Range(FindRules(K, tok, Last(st)))} : st \in {s \in todo : s # <<>>}}}
           free == {x[1] : x \in {y \in step : ~ y[2]}}
       IN Settle(tok, free \ seen, seen \cup free, after \cup {x[1] : x \in {y \in step : y[2]}})
After(tok, confs) == IF tok # NilTok /\ IsSide(K, tok) THEN confs ELSE Settle(tok, confs, confs, {}).after
RECURSIVE Run(_, _, _)                         \* how many of the tokens some variant consumes
Run(confs, toks, n) ==
  IF toks = <<>> THEN n
  ELSE LET a == After(Head(toks), confs) IN IF a = {} THEN n ELSE Run(a, Tail(toks), n + 1)
RECURSIVE Chosen(_, _, _, _)                   \* how many of them the rules chosen consume, and where they lead
Chosen(rules, toks, n, st) ==
  IF rules = <<>> \/ toks = <<>> THEN [n |-> n, st |-> st]
  ELSE LET st1 == Moved(st, Head(rules))
       IN IF Uses(Head(toks), Head(rules)) THEN Chosen(Tail(rules), Tail(toks), n + 1, st1) ELSE Chosen(Tail(rules), toks, n, st1)
RECURSIVE Coming(_)                            \* the tokens after those looked at
Coming(q) == LET r == TokenAt(T, ins, q)
             IN IF r.err # NoErr THEN <<>> ELSE IF r.tok.t = EoiT THEN <<r.tok>> ELSE <<r.tok>> \o Coming(r.q)
LongestHolds ==
  look # <<>> =>
    LET l == look[1]
        seen(t) == t = NilTok \/ ~ IsSide(K, t)
        plain == SelectSeq(l.toks, seen)
        rules == SelectSeq(m.ap, LAMBDA r : ~ (r[2] = Repeat /\ r[3] = Same /\ r[1] >= 0 /\ TokDef(K, r[1]).side = 1))
        c == Chosen(rules, plain, 0, <<l.state>>)
        start == {<<l.state>>}
        more == IF OneGroup THEN Coming(m.q) ELSE <<>>
    IN /\ c.n = Run(start, plain, 0)
       /\ c.n = Len(plain) => c.n + Run({c.st}, more, 0) = Run(start, plain \o more, 0)
UnseenHolds == look # <<>> => \A e \in Range(look[1].ev) : e.e = "tk"

(* ---- C04, C15: tokens handed out once, in order, nothing between ---------- *)
Pos(e) == <<e.tok.s, e.tok.p>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sourced == SelectSeq(Taken, LAMBDA e : e.tok.s > 0)
OrderHolds == \A i \in 1..(Len(Sourced) - 1) : Before(Pos(Sourced[i]), Pos(Sourced[i + 1]))
EndAt(e) == <<e.tok.s, e.tok.p + Len(e.tok.x)>>
Nothing(a, b) == a = b \/ (a[1] < b[1] /\ a[2] = Len(ins[a[1]]) /\ b[2] = 0 /\ \A k \in (a[1] + 1)..(b[1] - 1) : ins[k] = <<>>)
Start == <<1, 0>>
WholeHolds ==                                  \* with side tokens nothing is left out
  sides = 1 => /\ \A i \in 1..(Len(Sourced) - 1) : Nothing(EndAt(Sourced[i]), Pos(Sourced[i + 1]))
               /\ Sourced # <<>> => Nothing(Start, Pos(Sourced[1]))

(* ---- C09: where the parse stops ------------------------------------------ *)
LastEnd == IF Sourced = <<>> THEN Start ELSE EndAt(Last(Sourced))
StopHolds ==
  Good /\ full = 0 =>
    IF m.q = <<>> \/ Cur(m.q)[1] = 0 THEN EndOk(T, ins, LastEnd)
    ELSE GapOk(T, ins, LastEnd, Cur(m.q)[1], Cur(m.q)[2])
FullHolds == Good /\ full = 1 => EndOk(T, ins, LastEnd)

(* ---- C21: a failed hook is the last one called ---------------------------- *)
FailHolds == fail > 0 => /\ Len(log) <= fail /\ (Len(log) = fail => m.err = HookErr) /\ (m.err = HookErr => Len(log) = fail)
Terminates == <>Over(m)
=============================================================================
