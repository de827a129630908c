------------------------------ MODULE LexerApi ------------------------------
(* Package lexer on its own (property C05): a lexer made from a regular      *)
(* expression whose capturing groups stand for token types.                  *)
(* A pattern is a list of alternatives, each a list of parts                 *)
(*   [re, cap, opt]: cap the number of its capturing group (0: none),        *)
(*   opt = 1 the captured part may be missing.                               *)
(* types[g] = [t, n] describes group g; a group with no description and a    *)
(* type outside of 0..63 stand for broken lexemes.                           *)
EXTENDS Lexemes

BadType == -4                                \* ErrorTokenType
TypeOf(L, g) == IF g > Len(L.types) THEN BadType
                ELSE IF L.types[g].t < 0 \/ L.types[g].t > 63 THEN BadType ELSE L.types[g].t
TypesOf(L) == {TypeOf(L, g) : g \in 1..Len(L.types)} \ {BadType}

(* the preferred match of the parts i.. at p: [ok, end, caps] *)
NoMatch == [ok |-> FALSE, end |-> 0, caps |-> <<>>]
RECURSIVE Parts(_, _, _, _)
RECURSIVE Each(_, _, _, _, _)
Parts(ps, i, txt, p) ==
  IF i > Len(ps) THEN [ok |-> TRUE, end |-> p, caps |-> <<>>]
  ELSE LET m == Each(ps, i, txt, p, Ends(ps[i].re, 1, txt, p))
       IN IF m.ok \/ ps[i].opt = 0 THEN m ELSE Parts(ps, i + 1, txt, p)
Each(ps, i, txt, p, es) ==
  IF es = <<>> THEN NoMatch
  ELSE LET m == Parts(ps, i + 1, txt, Head(es))
       IN IF m.ok THEN [m EXCEPT !.caps = IF ps[i].cap = 0 THEN @ ELSE <<<<ps[i].cap, p, Head(es)>>>> \o @]
          ELSE Each(ps, i, txt, p, Tail(es))
RECURSIVE Alts(_, _, _, _)
Alts(as, i, txt, p) == IF i > Len(as) THEN NoMatch
                       ELSE LET m == Parts(as[i], 1, txt, p) IN IF m.ok THEN m ELSE Alts(as, i + 1, txt, p)

(* One call: [tok, q, err] *)
RECURSIVE Call(_, _, _, _)
Call(L, ins, q, mask) ==
  LET c == Cur(q)
      s == c[1]
      p == c[2]
      res(tok, nq, err) == [tok |-> tok, q |-> nq, err |-> err]
  IN IF mask # ALL /\ mask \cap TypesOf(L) = {} THEN res(NilTok, q, NoErr)
     ELSE IF q = <<>> THEN res(EoiTok, q, NoErr)
     ELSE IF p >= Len(ins[s]) THEN res(EofTok(s, Len(ins[s])), DoNext(q), NoErr)
     ELSE LET m == Alts(L.alts, 1, ins[s], p)
              want == SelectSeq(m.caps, LAMBDA x : TypeOf(L, x[1]) = BadType \/ Has(mask, TypeOf(L, x[1])))
          IN IF ~ m.ok \/ m.end = p THEN res(NilTok, q, ErrAt(ins, WrongChar, s, p))
             ELSE IF m.caps = <<>> THEN Call(L, ins, SetPos(q, m.end), mask)      \* insignificant
             ELSE IF want = <<>> THEN res(NilTok, q, NoErr)
             ELSE LET x == want[1] t == TypeOf(L, x[1])
                  IN IF t = BadType THEN res(NilTok, q, ErrAt(ins, BadToken, s, x[2]))
                     ELSE res([t |-> t, n |-> L.types[x[1]].n, x |-> SubSeq(ins[s], x[2] + 1, x[3]), s |-> s, p |-> x[2]],
                              SetPos(q, m.end), NoErr)
=============================================================================
