--------------------------- MODULE DerivationTrace ---------------------------
(* Recorded node hook calls of successful parses against Derivation.tla. *)
EXTENDS Derivation
VARIABLES ci, l, stk, at, v
vars == <<ci, l, stk, at, v>>
C == Cases[ci]
R == C.runs[1]
T == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
Init == ci \in 1..Len(Cases) /\ l = 0 /\ stk = <<>> /\ at = <<1, 0>> /\ v = "run"
Stay == UNCHANGED <<ci, l, stk, at>>
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", l, w) /\ Stay
Ok(w) == v' = "ok" /\ Verdict(C.id, "OK", l, w) /\ Stay
Live == v = "run" /\ C.ok = 1
Skip == v = "run" /\ C.ok = 0 /\ Ok("skipped")
E == R.log[l + 1]
Go(st) == stk' = st /\ l' = l + 1 /\ UNCHANGED <<ci, at, v>>
NodeBody(n) == <<Body(C.g, n)>>
Top == Last(stk)
(* a nested node is announced to its parent, then it gets its own hook *)
NewNode == /\ Live /\ l < Len(R.log) /\ E.e = "new"
           /\ IF stk = <<>> THEN Bad("an open node")
              ELSE LET d == DS(C.g.ns, Top.rs, <<"node", E.n>>) IN
                   IF E.i # Top.i THEN Bad("the innermost node")
                   ELSE IF d = {} THEN Bad(<<"a child allowed here", Top.n>>)
                   ELSE Go(Append(Front(stk), [Top EXCEPT !.rs = d, !.child = E.n]))
OpenNode == /\ Live /\ l < Len(R.log) /\ E.e = "open"
            /\ IF (stk = <<>> /\ (l > 0 \/ E.n # C.g.nodes[1].n)) \/ (stk # <<>> /\ Top.child # E.n) THEN Bad("an announced node")
               ELSE Go((IF stk = <<>> THEN <<>> ELSE Append(Front(stk), [Top EXCEPT !.child = ""]))
                       \o <<[i |-> E.i, n |-> E.n, rs |-> {NodeBody(E.n)}, child |-> "", done |-> ""]>>)
Token == /\ Live /\ l < Len(R.log) /\ E.e = "tok"
         /\ IF stk = <<>> THEN Bad("an open node")
            ELSE LET d == UNION {DS(C.g.ns, Top.rs, s) : s \in SymbolsOf(C.g, C.lits, E.tok.n, E.tok.x)}
                     eoi == E.tok.n = "-eoi-"
                 IN IF E.i # Top.i \/ Top.child # "" THEN Bad("the innermost node")
                    ELSE IF d = {} THEN Bad(<<"a token allowed here", Top.n>>)
                    ELSE IF eoi THEN IF EndOk(T, C.ins, at) THEN Go(Append(Front(stk), [Top EXCEPT !.rs = d])) ELSE Bad("end of input")
                    ELSE IF E.tok.s = 0 THEN Bad("a token of the source")
                    ELSE IF ~ GapOk(T, C.ins, at, E.tok.s, E.tok.p) THEN Bad("the next token of the source")
                    ELSE IF ~ LexemeOk(C.g, T, C.ins, E.tok) THEN Bad("a token of this type")
                    ELSE /\ stk' = Append(Front(stk), [Top EXCEPT !.rs = d]) /\ l' = l + 1
                         /\ at' = <<E.tok.s, E.tok.p + Len(E.tok.x)>> /\ UNCHANGED <<ci, v>>
EndNode == /\ Live /\ l < Len(R.log) /\ E.e = "end"
           /\ IF stk = <<>> THEN Bad("an open node")
              ELSE IF E.i # Top.i \/ Top.child # "" THEN Bad("the innermost node")
              ELSE IF ~ \E r \in Top.rs : NullableR(C.g.ns, r) THEN Bad(<<"more of the node", Top.n>>)
              ELSE Go(IF Len(stk) = 1 THEN <<>> ELSE Append(Front(Front(stk)), [stk[Len(stk) - 1] EXCEPT !.done = Top.n]))
(* a finished node is handed to its parent, before anything else happens *)
Waiting == stk # <<>> /\ Top.done # ""
Kid == /\ Live /\ l < Len(R.log) /\ E.e = "kid"
       /\ IF stk = <<>> \/ E.i # Top.i THEN Bad("the innermost node")
          ELSE IF E.n # Top.done THEN Bad("the node that has ended")
          ELSE Go(Append(Front(stk), [Top EXCEPT !.done = ""]))
Missed == Live /\ l < Len(R.log) /\ E.e # "kid" /\ Waiting /\ Bad("the ended node handed to its parent")
End == Live /\ l = Len(R.log) /\ (IF stk = <<>> THEN Ok("derivation") ELSE Bad("complete nodes"))
Next == Skip \/ Missed \/ (~ (Live /\ Waiting) /\ (NewNode \/ OpenNode \/ Token \/ EndNode)) \/ Kid \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
