------------------------------ MODULE Grammar ------------------------------
(* Meaning of a grammar description.                                         *)
(*                                                                           *)
(* g.ns    syntax array of all node bodies: [k, s, a]                        *)
(*         k = "lit" (s: text), "type" (s: name), "node" (s: name), "eoi",   *)
(*         "seq", "alt", "opt" (0 or 1), "rep" (0 or more); a: operands      *)
(* g.nodes [n |-> name, b |-> index of the body], the first one is the root  *)
(* g.types token types in definition order (see Lexemes.tla)                 *)
(*                                                                           *)
(* What is left to match of a body is a residual: a sequence of indices in   *)
(* g.ns.  D computes the partial derivatives (Antimirov) of residuals; Stop  *)
(* is the residual after the end-of-input item, it matches the empty         *)
(* sequence only, whatever follows.                                          *)
EXTENDS Util

Stop == 0
Leaf(x) == x.k \in {"lit", "type", "node", "eoi"}
Eoi == <<"eoi", "">>
Sym(x) == IF x.k = "eoi" THEN Eoi ELSE <<x.k, x.s>>   \* symbol of a leaf

RECURSIVE Nullable(_, _)
Nullable(ns, i) ==
  LET x == ns[i] IN
  CASE Leaf(x) -> FALSE
    [] x.k \in {"opt", "rep"} -> TRUE
    [] x.k = "seq" -> \A j \in Range(x.a) : Nullable(ns, j)
    [] x.k = "alt" -> \E j \in Range(x.a) : Nullable(ns, j)
RECURSIVE NullableR(_, _)
NullableR(ns, r) ==                            \* can the residual be empty
  IF r = <<>> THEN TRUE
  ELSE IF r[1] = Stop THEN TRUE
  ELSE Nullable(ns, r[1]) /\ NullableR(ns, Tail(r))

Glue(r, rest) == IF r # <<>> /\ Last(r) = Stop THEN r ELSE r \o rest

RECURSIVE D(_, _, _)
RECURSIVE DR(_, _, _)
D(ns, i, sym) ==                               \* residuals of item i after symbol sym
  LET x == ns[i] IN
  CASE x.k = "eoi" -> IF sym = Eoi THEN {<<Stop>>} ELSE {}
    [] x.k \in {"lit", "type", "node"} -> IF Sym(x) = sym THEN {<<>>} ELSE {}
    [] x.k = "seq" -> DR(ns, x.a, sym)
    [] x.k = "alt" -> UNION {D(ns, j, sym) : j \in Range(x.a)}
    [] x.k = "opt" -> D(ns, x.a[1], sym)
    [] x.k = "rep" -> {Glue(c, <<i>>) : c \in D(ns, x.a[1], sym)}
DR(ns, r, sym) ==                              \* residuals of residual r after symbol sym
  IF r = <<>> \/ r[1] = Stop THEN {}
  ELSE {Glue(c, Tail(r)) : c \in D(ns, r[1], sym)}
       \cup (IF Nullable(ns, r[1]) THEN DR(ns, Tail(r), sym) ELSE {})
DS(ns, R, sym) == UNION {DR(ns, r, sym) : r \in R}

(* Symbols a residual can start with (nodes are symbols here). *)
RECURSIVE Syms(_, _)
RECURSIVE SymsR(_, _)
Syms(ns, i) ==
  LET x == ns[i] IN
  CASE Leaf(x) -> {Sym(x)}
    [] x.k = "seq" -> SymsR(ns, x.a)
    [] OTHER -> UNION {Syms(ns, j) : j \in Range(x.a)}
SymsR(ns, r) ==
  IF r = <<>> \/ r[1] = Stop THEN {}
  ELSE Syms(ns, r[1]) \cup (IF Nullable(ns, r[1]) THEN SymsR(ns, Tail(r)) ELSE {})

NodeNo(g, name) == CHOOSE i \in 1..Len(g.nodes) : g.nodes[i].n = name
Body(g, name) == g.nodes[NodeNo(g, name)].b

(* Tokens (literals, types, end of input) a set of symbols can start with.   *)
(* A nested node always takes at least one token, even if its body could be  *)
(* empty.                                                                    *)
RECURSIVE FirstOf(_, _, _)
FirstOf(g, syms, seen) ==
  {s \in syms : s[1] # "node"}
  \cup UNION {FirstOf(g, Syms(g.ns, Body(g, s[2])), seen \cup {s[2]}) : s \in {t \in syms : t[1] = "node" /\ t[2] \notin seen}}
FirstN(g, name) == FirstOf(g, Syms(g.ns, Body(g, name)), {name})
=============================================================================
