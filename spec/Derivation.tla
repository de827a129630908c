----------------------------- MODULE Derivation -----------------------------
(* A successful parse as a derivation (property C01): the calls of node      *)
(* hooks are the steps of a leftmost derivation, every open node holds the   *)
(* set of residuals of its body, and the tokens taken are cut off the source *)
(* with nothing but side tokens between them.                                *)
EXTENDS Grammar, Lexemes

TypeNamed(g, n) == g.types[CHOOSE i \in 1..Len(g.types) : g.types[i].n = n]
(* symbols a token can stand for; lits: [s, b] all literals of the grammar *)
SymbolsOf(g, lits, n, text) ==
  IF n = "-eoi-" THEN {Eoi}
  ELSE LET y == TypeNamed(g, n)
           b == IF y.cl = 1 THEN UpperB(text) ELSE text
           ls == IF y.nolit = 1 THEN {} ELSE {l.s : l \in {x \in Range(lits) : x.b = b}}
       IN {<<"lit", s>> : s \in ls}
          \cup (IF \E s \in ls : s \in Range(g.rsv) THEN {} ELSE {<<"type", n>>})

(* positions reachable from p by side tokens only *)
SideEnds(types, t, p) ==
  {e \in {LET ts == InGroup(types, gr) m == FirstMatch(ts, t, p, 1)
          IN IF m[1] > 0 /\ m[2] > p /\ ts[m[1]].side = 1 THEN m[2] ELSE 0 : gr \in 0..MaxGroup(types)} : e > p}
RECURSIVE Reach(_, _, _)
Reach(types, t, ps) ==
  LET more == UNION {SideEnds(types, t, p) : p \in ps} \ ps
  IN IF more = {} THEN ps ELSE Reach(types, t, ps \cup more)
(* can the token at <<s, p>> come next after the byte at from *)
GapOk(types, ins, from, s, p) ==
  IF s = from[1] THEN p \in Reach(types, ins[s], {from[2]})
  ELSE /\ s > from[1]
       /\ Len(ins[from[1]]) \in Reach(types, ins[from[1]], {from[2]})
       /\ \A k \in (from[1] + 1)..(s - 1) : Len(ins[k]) \in Reach(types, ins[k], {0})
       /\ p \in Reach(types, ins[s], {0})
EndOk(types, ins, from) ==
  /\ Len(ins[from[1]]) \in Reach(types, ins[from[1]], {from[2]})
  /\ \A k \in (from[1] + 1)..Len(ins) : Len(ins[k]) \in Reach(types, ins[k], {0})
LexemeOk(g, types, ins, tok) ==
  LET y == TypeNamed(g, tok.n) m == FirstMatch(InGroup(types, y.grp), ins[tok.s], tok.p, 1)
  IN m[1] > 0 /\ InGroup(types, y.grp)[m[1]].n = tok.n /\ m[2] = tok.p + Len(tok.x) /\ tok.x = SubSeq(ins[tok.s], tok.p + 1, m[2])
=============================================================================
