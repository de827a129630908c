-------------------------------- MODULE Tree --------------------------------
(* Ideal ordered forest (properties C13, C14).  Elements are 1..N.            *)
(* A forest is [kids |-> seq of child lists (one per element), tops |-> set   *)
(* of sibling lists having no parent]; every element is in exactly one list.  *)
EXTENDS Util

Empty(n) == [kids |-> [i \in 1..n |-> <<>>], tops |-> {<<i>> : i \in 1..n}]
Count(f) == Len(f.kids)
Parents(f, x) == {p \in 1..Count(f) : \E i \in 1..Len(f.kids[p]) : f.kids[p][i] = x}
Parent(f, x) == IF Parents(f, x) = {} THEN 0 ELSE CHOOSE p \in Parents(f, x) : TRUE
TopOf(f, x) == CHOOSE t \in f.tops : x \in Range(t)
Siblings(f, x) == IF Parent(f, x) # 0 THEN f.kids[Parent(f, x)] ELSE TopOf(f, x)
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* before the i-th

Prev(f, x) == LET s == Siblings(f, x) i == IndexIn(s, x) IN IF i = 1 THEN 0 ELSE s[i - 1]
NextS(f, x) == LET s == Siblings(f, x) i == IndexIn(s, x) IN IF i = Len(s) THEN 0 ELSE s[i + 1]
First(s) == IF s = <<>> THEN 0 ELSE Head(s)
LastOf(s) == IF s = <<>> THEN 0 ELSE Last(s)

RECURSIVE AncSeq(_, _)
AncSeq(f, x) == LET p == Parent(f, x) IN IF p = 0 THEN <<>> ELSE <<p>> \o AncSeq(f, p)
IsAnc(f, a, x) == a \in Range(AncSeq(f, x))

(* ---- edits ---- *)
\* takes x (with its subtree) out; it becomes the only member of its own list
Detach(f, x) ==
  IF x = 0 THEN f
  ELSE LET p == Parent(f, x) IN
    IF p # 0 THEN [kids |-> [f.kids EXCEPT ![p] = Without(f.kids[p], x)], tops |-> f.tops \cup {<<x>>}]
    ELSE LET t == TopOf(f, x) IN
      IF Len(t) = 1 THEN f
      ELSE [f EXCEPT !.tops = (f.tops \ {t}) \cup {<<x>>, Without(t, x)}]
\* puts single x next to y: d = 1 after, d = 0 before
Place(f, y, x, d) ==
  LET g == Detach(f, x)
      p == Parent(g, y)
      s == Siblings(g, y)
      r == InsertAt(s, IndexIn(s, y) + d, x)
  IN IF p # 0 THEN [kids |-> [g.kids EXCEPT ![p] = r], tops |-> g.tops \ {<<x>>}]
     ELSE [g EXCEPT !.tops = (g.tops \ {s, <<x>>}) \cup {r}]
AppendSibling(f, y, x) == IF x = 0 \/ y = 0 \/ x = y THEN f ELSE Place(f, y, x, 1)
PrependSibling(f, y, x) == IF x = 0 \/ y = 0 \/ x = y THEN f ELSE Place(f, y, x, 0)
AppendChild(f, p, x) ==
  IF p = 0 \/ x = 0 THEN f
  ELSE LET g == Detach(f, x) IN [kids |-> [g.kids EXCEPT ![p] = Append(@, x)], tops |-> g.tops \ {<<x>>}]
AddChild(f, p, x, before) ==                \* x must be alone
  IF x = 0 \/ (before # 0 /\ Parent(f, before) # p) THEN f
  ELSE IF before = 0 THEN AppendChild(f, p, x)
  ELSE [kids |-> [f.kids EXCEPT ![p] = InsertAt(@, IndexIn(@, before), x)], tops |-> f.tops \ {<<x>>}]
RemoveChild(f, p, x) == IF x = 0 \/ Parent(f, x) # p THEN f ELSE Detach(f, x)
Replace(f, old, x) ==
  IF x = 0 \/ old = 0 THEN Detach(f, old)
  ELSE IF x = old THEN f
  ELSE Detach(AppendSibling(f, old, x), old)

Edit(f, op) ==
  CASE op.o = "append" -> AppendSibling(f, op.a[1], op.a[2])
    [] op.o = "prepend" -> PrependSibling(f, op.a[1], op.a[2])
    [] op.o = "child" -> AppendChild(f, op.a[1], op.a[2])
    [] op.o = "add" -> AddChild(f, op.a[1], op.a[2], op.a[3])
    [] op.o = "remove" -> RemoveChild(f, op.a[1], op.a[2])
    [] op.o = "detach" -> Detach(f, op.a[1])
    [] op.o = "replace" -> Replace(f, op.a[1], op.a[2])
    [] OTHER -> f
Edits == {"append", "prepend", "child", "add", "remove", "detach", "replace"}

\* an edit that would make an element its own descendant is no tree edit
Legal(f, op, isNode) ==
  LET a == op.a
      under(x, p) == x = p \/ (p # 0 /\ IsAnc(f, x, p))
  IN CASE op.o \in {"append", "prepend"} -> a[1] = 0 \/ a[2] = 0 \/ ~IsAnc(f, a[2], a[1])
       [] op.o = "replace" -> a[1] = 0 \/ a[2] = 0 \/ ~IsAnc(f, a[2], a[1])
       [] op.o = "child" -> (a[1] # 0 => isNode[a[1]]) /\ (a[1] = 0 \/ a[2] = 0 \/ ~under(a[2], a[1]))
       [] op.o = "add" -> isNode[a[1]] /\ (a[2] # 0 => (<<a[2]>> \in f.tops /\ ~under(a[2], a[1]) /\ a[2] # a[3]))
       [] op.o = "remove" -> isNode[a[1]]
       [] OTHER -> TRUE

Links(f) == [x \in 1..Count(f) |-> <<Parent(f, x), Prev(f, x), NextS(f, x), First(f.kids[x]), LastOf(f.kids[x])>>]

WellFormed(f) ==
  /\ \A x \in 1..Count(f) : Cardinality(Parents(f, x)) + Cardinality({t \in f.tops : x \in Range(t)}) = 1
  /\ \A x \in 1..Count(f) : Cardinality(Range(f.kids[x])) = Len(f.kids[x])
  /\ \A x \in 1..Count(f) : ~IsAnc(f, x, x)

(* ---- document order ---- *)
RECURSIVE Pre(_, _), PreList(_, _)
Pre(f, x) == <<x>> \o PreList(f, f.kids[x])
PreList(f, s) == IF s = <<>> THEN <<>> ELSE Pre(f, Head(s)) \o PreList(f, Tail(s))
Tokens(f, isNode, s) == SelectSeq(s, LAMBDA x : ~isNode[x])
FirstToken(f, isNode, x) == IF x = 0 THEN 0 ELSE First(Tokens(f, isNode, Pre(f, x)))
LastToken(f, isNode, x) == IF x = 0 THEN 0 ELSE LastOf(Tokens(f, isNode, Pre(f, x)))
\* the whole list of trees x belongs to, in document order
RootList(f, x) == LET a == AncSeq(f, x) IN Siblings(f, IF a = <<>> THEN x ELSE Last(a))
Doc(f, x) == PreList(f, RootList(f, x))
NextToken(f, isNode, x) ==
  IF x = 0 THEN 0
  ELSE LET d == Doc(f, x) IN First(Tokens(f, isNode, SubSeq(d, IndexIn(d, x) + Len(Pre(f, x)), Len(d))))
PrevToken(f, isNode, x) ==
  IF x = 0 THEN 0
  ELSE LET d == Doc(f, x) IN LastOf(Tokens(f, isNode, SubSeq(d, 1, IndexIn(d, x) - 1)))
PrevSeq(f, x) == LET s == Siblings(f, x) IN Rev(SubSeq(s, 1, IndexIn(s, x) - 1))
NextSeq(f, x) == LET s == Siblings(f, x) IN SubSeq(s, IndexIn(s, x) + 1, Len(s))
Kids(f, x) == IF x = 0 THEN <<>> ELSE f.kids[x]
Nav(f, isNode, x) ==
  IF x = 0 THEN <<0, 0, 0, 0, <<>>, <<>>, <<>>, <<>>>>
  ELSE <<FirstToken(f, isNode, x), LastToken(f, isNode, x), NextToken(f, isNode, x), PrevToken(f, isNode, x),
         Kids(f, x), AncSeq(f, x), PrevSeq(f, x), NextSeq(f, x)>>

(* ---- walker: pending = stack of lists of siblings not visited yet ---- *)
WStop == 1
WSkipKids == 2
WSkipSibs == 4
Has(flags, bit) == (flags \div bit) % 2 = 1
WalkInit(root) == [on |-> root # 0, root |-> root, cur |-> 0, pend |-> <<>>]
Drop(pend) == IF pend = <<>> THEN pend ELSE Front(pend) \o <<<<>>>>
RECURSIVE Trim(_)
Trim(pend) == IF pend # <<>> /\ Last(pend) = <<>> THEN Trim(Front(pend)) ELSE pend
Visit(w, pend) ==
  LET p == Trim(pend) IN
  IF p = <<>> THEN [w EXCEPT !.on = FALSE, !.cur = 0]
  ELSE [w EXCEPT !.cur = Head(Last(p)), !.pend = Front(p) \o <<Tail(Last(p))>>]
WalkStep(f, mode, w, flags) ==
  IF ~w.on THEN w
  ELSE IF Has(flags, WStop) THEN [w EXCEPT !.on = FALSE, !.cur = 0]
  ELSE IF w.cur = 0 THEN [w EXCEPT !.cur = w.root]
  ELSE LET rest == IF Has(flags, WSkipSibs) THEN Drop(w.pend) ELSE w.pend
           ks == IF Has(flags, WSkipKids) THEN <<>> ELSE IF mode = 1 THEN Rev(f.kids[w.cur]) ELSE f.kids[w.cur]
       IN Visit(w, Append(rest, ks))
\* level: number of lists on the stack below and including that of cur
WalkShown(w) == IF w.cur = 0 THEN <<0, 0>> ELSE <<w.cur, Len(w.pend)>>
RECURSIVE WalkSeq(_, _, _, _)
WalkSeq(f, mode, w, flags) ==
  IF flags = <<>> THEN <<>>
  ELSE LET n == WalkStep(f, mode, w, Head(flags)) IN <<WalkShown(n)>> \o WalkSeq(f, mode, n, Tail(flags))
\* Walk: the visitor's answer on an element is used by the next step
RECURSIVE Walk(_, _, _, _, _)
Walk(f, mode, w, last, flags) ==
  LET n == WalkStep(f, mode, w, last) IN
  IF n.cur = 0 THEN <<>>
  ELSE LET fl == IF flags = <<>> THEN 0 ELSE Head(flags) IN
       <<WalkShown(n)>> \o (IF Has(fl, WStop) THEN <<>>
                            ELSE Walk(f, mode, n, fl, IF flags = <<>> THEN flags ELSE Tail(flags)))

(* ---- selectors ---- *)
RECURSIVE Accepts(_, _, _)
Accepts(els, e, x) ==
  CASE e.k = "isa" -> els[x].t \in Range(e.n)
    [] e.k = "lit" -> els[x].n = 0 /\ els[x].x \in Range(e.n)
    [] e.k = "not" -> ~Accepts(els, e.f[1], x)
    [] e.k = "any" -> \E i \in 1..Len(e.f) : Accepts(els, e.f[i], x)
    [] e.k = "all" -> \A i \in 1..Len(e.f) : Accepts(els, e.f[i], x)
    [] OTHER -> TRUE
RECURSIVE Extract(_, _, _), FirstNonEmpty(_, _, _), Concat(_, _, _)
Extract(f, e, x) ==
  CASE e.k = "any" -> FirstNonEmpty(f, e.e, x)
    [] e.k = "all" -> Concat(f, e.e, x)
    [] e.k = "nth" -> LET r == Extract(f, e.e[1], x)
                          ok == SelectSeq(e.i, LAMBDA i : i >= 0 /\ i < Len(r))
                      IN [j \in 1..Len(ok) |-> r[ok[j] + 1]]
    [] e.k = "anc" -> AncSeq(f, x)
    [] e.k = "prev" -> PrevSeq(f, x)
    [] e.k = "next" -> NextSeq(f, x)
    [] OTHER -> f.kids[x]
FirstNonEmpty(f, es, x) ==
  IF es = <<>> THEN <<>>
  ELSE LET r == Extract(f, Head(es), x) IN IF r # <<>> THEN r ELSE FirstNonEmpty(f, Tail(es), x)
Concat(f, es, x) == IF es = <<>> THEN <<>> ELSE Extract(f, Head(es), x) \o Concat(f, Tail(es), x)
RECURSIVE Search(_, _, _, _, _), SearchList(_, _, _, _, _)
Search(f, els, e, deep, x) ==
  IF Accepts(els, e, x) THEN <<x>> \o (IF deep THEN SearchList(f, els, e, deep, f.kids[x]) ELSE <<>>)
  ELSE SearchList(f, els, e, deep, f.kids[x])
SearchList(f, els, e, deep, s) ==
  IF s = <<>> THEN <<>> ELSE Search(f, els, e, deep, Head(s)) \o SearchList(f, els, e, deep, Tail(s))
Transform(f, els, t, x) ==
  CASE t.k = "filter" -> IF Accepts(els, t.f, x) THEN <<x>> ELSE <<>>
    [] t.k = "extract" -> Extract(f, t.e, x)
    [] t.k = "search" -> Search(f, els, t.f, FALSE, x)
    [] t.k = "deep" -> Search(f, els, t.f, TRUE, x)
RECURSIVE Select(_, _, _, _), Dedup(_, _)
Select(f, els, ts, in) ==
  IF ts = <<>> THEN in
  ELSE Select(f, els, Tail(ts), FlattenSeq([i \in 1..Len(in) |-> Transform(f, els, Head(ts), in[i])]))
Dedup(s, seen) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen)
  ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
Apply(f, els, op) ==
  LET r == Select(f, els, op.s, SelectSeq(op.a, LAMBDA x : x # 0))
  IN IF op.u = 1 THEN Dedup(r, {}) ELSE r

Query(f, els, op) ==
  LET isNode == [i \in 1..Len(els) |-> els[i].n = 1]
  IN CASE op.o = "nav" -> Nav(f, isNode, op.a[1])
       [] op.o = "step" -> WalkSeq(f, op.a[2], WalkInit(op.a[1]), op.f)
       [] op.o = "next" -> WalkSeq(f, op.a[2], WalkInit(op.a[1]), [i \in 1..Len(op.f) |-> 0])
       [] op.o = "walk" -> Walk(f, op.a[2], WalkInit(op.a[1]), 0, op.f)
       [] op.o = "select" -> Apply(f, els, op)
==============================================================================
