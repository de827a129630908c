---------------------------- MODULE PredictTrace ----------------------------
(* Recorded parses against the predictive parser of Predict.tla. *)
EXTENDS Predict
VARIABLES ci, stk, q, tok, have, n, popped, v
vars == <<ci, stk, q, tok, have, n, popped, v>>
C == Cases[ci]
R == C.runs[1]
T == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
RECURSIVE Queue(_, _, _)
Queue(lens, i, l) == IF i > Len(lens) THEN l ELSE Queue(lens, i + 1, DoAppend(lens, l, i))
Init == /\ ci \in 1..Len(Cases) /\ v = "run" /\ n = 0 /\ tok = NilTok /\ have = "no" /\ popped = {}
        /\ stk = <<[n |-> C.g.nodes[1].n, r |-> NodeBody(C.g, C.g.nodes[1].n)]>>
        /\ q = Queue(Lens(C.ins), 1, <<>>)
Stay == UNCHANGED <<ci, stk, q, tok, have, n, popped>>
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", n, w) /\ Stay
Ok(w) == v' = "ok" /\ Verdict(C.id, "OK", n, w) /\ Stay
Hung == C.hang = 1                         \* the real parse did not end
Live == v = "run" /\ C.crash = 0 /\ C.ok = 1 /\ NoEmptyNodes(C.g)
Skip == v = "run" /\ C.crash = 0 /\ (C.ok = 0 \/ ~ NoEmptyNodes(C.g)) /\ Ok("skipped")
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")
Same(e) == [k |-> R.err.k, code |-> IF R.err.k = "llx" THEN R.err.code ELSE 0, line |-> R.err.line, col |-> R.err.col, src |-> R.err.src] = e
(* the tokens handed to hooks are exactly the ones taken *)
Taken == Len(C.taken)
Lex == /\ Live /\ have = "no" /\ stk # <<>>
       /\ LET r == TokenAt(T, C.ins, q)
          IN IF r.err # NoErr THEN /\ have' = "err" /\ tok' = NilTok /\ UNCHANGED <<ci, stk, q, n, popped, v>>
             ELSE /\ have' = "yes" /\ tok' = r.tok /\ q' = r.q /\ UNCHANGED <<ci, stk, n, popped, v>>
Syms0 == IF have = "err" THEN {} ELSE SymbolsOf(C.g, C.lits, tok.n, tok.x)
RECURSIVE LexErr(_)
LexErr(qq) == LET r == Fetch(C.ins, T, qq, ALL) IN IF r.err # NoErr THEN r.err ELSE LexErr(r.q)
Dots == <<46, 46, 46>>
TextOk(got, x) ==                           \* long texts are shortened in messages
  LET k == Len(got) - 3
  IN got = x \/ (k > 0 /\ k < Len(x) /\ SubSeq(got, k + 1, k + 3) = Dots /\ SubSeq(got, 1, k) = SubSeq(x, 1, k))
FailOk ==
  IF have = "err" THEN Same(LexErr(q))
  ELSE /\ Same(ErrAt(C.ins, IF tok.t = EoiT THEN 201 ELSE 202, tok.s, tok.p))
       /\ R.err.got = (IF tok.t = EoiT THEN "" ELSE tok.n)
       /\ TextOk(R.err.txtb, IF tok.t = EoiT THEN <<>> ELSE tok.x)
       /\ R.err.exp \in Names(C.g, popped \cup {Last(stk).r})
Step == /\ Live /\ have # "no" /\ stk # <<>>
        /\ LET m == Move(C.g, stk, Syms0) IN
           CASE m.a = "unclear" -> Ok("unclear")
             [] m.a = "fail" -> IF Hung THEN Bad("the parse ends") ELSE IF FailOk /\ Taken = n THEN Ok("fails") ELSE Bad(<<"error at", tok>>)
             [] m.a = "pop" -> /\ stk' = Front(stk) /\ popped' = popped \cup {Last(stk).r} /\ UNCHANGED <<ci, q, tok, have, n, v>>
             [] m.a = "enter" -> /\ stk' = Append(Append(Front(stk), [Last(stk) EXCEPT !.r = m.d]), [n |-> m.n, r |-> NodeBody(C.g, m.n)])
                                 /\ UNCHANGED <<ci, q, tok, have, n, popped, v>>
             [] m.a = "take" -> IF Hung \/ (n < Taken /\ C.taken[n + 1] = [n |-> tok.n, s |-> tok.s, p |-> tok.p])
                                THEN /\ stk' = Append(Front(stk), [Last(stk) EXCEPT !.r = m.d]) /\ n' = n + 1
                                     /\ have' = "no" /\ popped' = {} /\ UNCHANGED <<ci, q, tok, v>>
                                ELSE Bad(<<"take", tok>>)
Done == /\ Live /\ stk = <<>> /\ (IF Hung THEN Bad("the parse ends") ELSE IF R.err.k = "none" /\ Taken = n THEN Ok("succeeds") ELSE Bad("success"))
Next == Skip \/ Crash \/ Lex \/ Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
