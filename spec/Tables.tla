------------------------------- MODULE Tables -------------------------------
(* Compiled tables (C.tab) against the description they were made from (C.g) *)
(* (property C16).  The tables are read as a nondeterministic automaton per  *)
(* node: a rule without a nested node consumes the token of its key, a rule  *)
(* with a nested node consumes that node, a fallback rule (key AnyToken)     *)
(* consumes nothing.                                                         *)
EXTENDS Grammar, Regex

AnyKey == -1
EoiKey == -3
Final == -1
Same == -1

RulesOf(st) == Range(st.rules) \cup UNION {Range(m.rules) : m \in Range(st.multi)}
KeysOf(st) == {r[1] : r \in Range(st.rules)} \cup {m.key : m \in Range(st.multi)}
TokSym(tab, k) == IF k = EoiKey THEN Eoi
                  ELSE LET t == tab.tokens[k + 1] IN IF t.lit = 1 THEN <<"lit", t.n>> ELSE <<"type", t.n>>
St(tab, s) == tab.states[s + 1]

(* ---- fallback closure ---- *)
Falls(tab, s) == IF s = Final THEN {} ELSE {r[2] : r \in {x \in RulesOf(St(tab, s)) : x[1] = AnyKey /\ x[3] = Same}}
RECURSIVE Closure(_, _)
Closure(tab, S) == LET N == S \cup UNION {Falls(tab, s) : s \in S} IN IF N = S THEN S ELSE Closure(tab, N)
Live(S) == S \ {Final}

Consumes(tab, r) ==                        \* symbol consumed by a rule
  IF r[3] # Same THEN <<"node", tab.nodes[r[3] + 1].n>> ELSE TokSym(tab, r[1])
StepT(tab, S, sym) ==
  Closure(tab, {r[2] : r \in {x \in UNION {RulesOf(St(tab, s)) : s \in Live(S)} : (x[1] # AnyKey \/ x[3] # Same) /\ Consumes(tab, x) = sym}})
SymsT(tab, S) == {Consumes(tab, r) : r \in {x \in UNION {RulesOf(St(tab, s)) : s \in Live(S)} : x[1] # AnyKey \/ x[3] # Same}}

(* ---- rules that consume nothing: fallbacks and pushes ---- *)
Moves(tab, s) ==
  IF s = Final THEN {}
  ELSE {r[2] : r \in {x \in RulesOf(St(tab, s)) : x[1] = AnyKey /\ x[3] = Same}}
       \cup {tab.nodes[r[3] + 1].s : r \in {x \in RulesOf(St(tab, s)) : x[3] # Same}}
RECURSIVE MovesPlus(_, _)
MovesPlus(tab, S) == LET N == S \cup UNION {Moves(tab, s) : s \in S} IN IF N = S THEN S ELSE MovesPlus(tab, N)
NoIdleCycle(tab, s) == s \notin MovesPlus(tab, Moves(tab, s))

(* ---- nested nodes are entered on exactly their first tokens ---- *)
PushOk(g, tab, s) ==
  LET rs == {x \in RulesOf(St(tab, s)) : x[3] # Same}
  IN \A p \in {<<r[2], r[3]>> : r \in rs} :
       LET got == {TokSym(tab, r[1]) : r \in {x \in rs : <<x[2], x[3]>> = p /\ x[1] # AnyKey}}
           want == FirstN(g, tab.nodes[p[2] + 1].n)
       IN /\ \A r \in rs : <<r[2], r[3]>> = p => r[1] # AnyKey
          /\ got \subseteq want /\ want \ {Eoi} \subseteq got

(* ---- token types marked in a state ---- *)
TypeNo(tab, name) == (CHOOSE i \in 1..Len(tab.tokens) : tab.tokens[i].n = name /\ tab.tokens[i].lit = 0) - 1
CanBe(ty, b) == /\ ty.re # <<>> /\ ty.nolit = 0
                /\ ty.cl = 1 => b = UpperB(b)
                /\ MatchEnd(ty.re, b, 0) = Len(b)
TypesOf(g, tab, k) ==
  IF k < 0 THEN {}
  ELSE LET t == tab.tokens[k + 1]
       IN IF t.lit = 0 THEN {k}
          ELSE {TypeNo(tab, ty.n) : ty \in {y \in Range(g.types) : CanBe(y, t.b)}}
SideTypes(g, tab) == {TypeNo(tab, ty.n) : ty \in {y \in Range(g.types) : y.side = 1}}
MaskOk(g, tab, s) ==
  Range(St(tab, s).types) = UNION {TypesOf(g, tab, k) : k \in KeysOf(St(tab, s))} \cup SideTypes(g, tab)
=============================================================================
