------------------------------ MODULE Predict ------------------------------
(* Predictive parsing straight from the description (property C02): which    *)
(* token is consumed, when the root is complete, which token is wrong.       *)
(* A stack level is [n, r]: node and the residual still to be matched.       *)
(* Move gives "take", "enter", "pop", "fail" or "unclear": not predictive,   *)
(* nothing is claimed then.                                                  *)
EXTENDS Derivation

NodeBody(g, n) == <<Body(g, n)>>

(* tokens of the sources in order; error: what cannot be lexed *)
RECURSIVE TokenAt(_, _, _)
TokenAt(types, ins, q) ==                   \* next visible token: [tok, q, err]
  LET r == Fetch(ins, types, q, ALL)
  IN IF r.err # NoErr THEN r
     ELSE IF r.tok.t = EofT \/ (r.tok.t >= 0 /\ types[r.tok.t + 1].side = 1) THEN TokenAt(types, ins, r.q)
     ELSE r

Fits(g, syms, s) == IF s[1] = "node" THEN syms \cap FirstN(g, s[2]) # {} ELSE s \in syms
(* symbols the residual can go on with, given those the token stands for *)
Choices(g, r, syms) == {s \in SymsR(g.ns, r) : Fits(g, syms, s)}
RECURSIVE Someone(_, _, _, _)
Someone(g, stk, syms, i) ==                 \* can a level i or lower take the token
  IF i = 0 THEN FALSE
  ELSE Choices(g, stk[i].r, syms) # {} \/ (NullableR(g.ns, stk[i].r) /\ Someone(g, stk, syms, i - 1))

Move(g, stk, syms) ==                       \* [a, d, n]: action, residual after it, node entered
  LET top == Last(stk)
      c == Choices(g, top.r, syms)
      nul == NullableR(g.ns, top.r)
      s == CHOOSE x \in c : TRUE
      d == DR(g.ns, top.r, s)
      res(a, dd, n) == [a |-> a, d |-> dd, n |-> n]
  IN IF Cardinality(c) > 1 THEN res("unclear", <<>>, "")
     ELSE IF c = {} THEN IF nul THEN res("pop", <<>>, "") ELSE res("fail", <<>>, "")
     ELSE IF Cardinality(d) > 1 THEN res("unclear", <<>>, "")
     ELSE IF nul /\ Len(stk) > 1 /\ Someone(g, stk, syms, Len(stk) - 1) THEN res("unclear", <<>>, "")
     ELSE res(IF s[1] = "node" THEN "enter" ELSE "take", CHOOSE x \in d : TRUE, s[2])

(* nodes other than the root that can match an empty text *)
NoEmptyNodes(g) == \A i \in 2..Len(g.nodes) : ~ Nullable(g.ns, g.nodes[i].b)

(* tokens (as they are written in messages) that could come at the levels *)
Names(g, rs) ==
  {CASE s[1] = "lit" -> s[2] [] s[1] = "type" -> "$" \o s[2] [] OTHER -> "end of input"
     : s \in UNION {FirstOf(g, SymsR(g.ns, r), {}) : r \in rs}}
=============================================================================
