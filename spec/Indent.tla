------------------------------- MODULE Indent -------------------------------
(* The indent layer as documented (property C10), without its mechanism: the *)
(* whole token stream is known and every line is looked at once.             *)
(* cfg: space (type names), on, off; raw: the tokens of all sources up to    *)
(* the end-of-input mark, end-of-file marks left out, adj[i] = 1 if there is *)
(* no such mark between raw[i] and the token before it.                      *)
EXTENDS Lexemes

Nl == 10
AfterNl(b) == LET n == {i \in 1..Len(b) : b[i] = Nl} IN IF n = {} THEN b ELSE SubSeq(b, MaxOf(n) + 1, Len(b))
HasNl(b) == \E i \in 1..Len(b) : b[i] = Nl
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSpace(cfg, t) == t.n \in Range(cfg.space)
Role(types, cfg, t) ==
  IF t.t < 0 THEN "end" ELSE IF IsSpace(cfg, t) THEN "space"
  ELSE IF types[t.t + 1].side = 1 THEN "side" ELSE "common"
Roles(types, cfg, raw) == [i \in 1..Len(raw) |-> Role(types, cfg, raw[i])]

(* the space token that starts the line of token i, 0 on the first line *)
LineStart(raw, roles, i) ==
  LET s == {j \in 1..(i - 1) : roles[j] = "space" /\ HasNl(raw[j].x)} IN IF s = {} THEN 0 ELSE MaxOf(s)
FirstOfLine(raw, roles, i) ==
  roles[i] = "common" /\ ~ \E j \in (LineStart(raw, roles, i) + 1)..(i - 1) : roles[j] = "common"
(* the spaces before the first token of a line, newline left out *)
RECURSIVE Spaces(_, _, _, _)
Spaces(raw, roles, j, i) ==
  IF j >= i THEN <<>> ELSE (IF roles[j] = "space" THEN AfterNl(raw[j].x) ELSE <<>>) \o Spaces(raw, roles, j + 1, i)
Indentation(raw, roles, i) == LET b == LineStart(raw, roles, i) IN Spaces(raw, roles, Max(b, 1), i)
SideBefore(raw, roles, i) == \E j \in (LineStart(raw, roles, i) + 1)..(i - 1) : roles[j] = "side"

(* marks come after the last token that is no space, but not before the      *)
(* newline that ends a line with tokens                                      *)
MarkAt(raw, roles, i) ==
  LET c == {j \in 1..(i - 1) : roles[j] = "common"}
      nl == {j \in (IF c = {} THEN 1 ELSE MaxOf(c))..(i - 1) : roles[j] = "space" /\ HasNl(raw[j].x)}
      n == IF c = {} THEN 1 ELSE IF nl = {} THEN i ELSE MinOf(nl)
      p == {j \in 1..(i - 1) : roles[j] # "space"}
  IN Max(n, IF p = {} THEN 1 ELSE MaxOf(p) + 1)

(* open levels (exact strings) from the outermost one; step of a line:       *)
(* [levels, inn, out, ok]                                                    *)
Line(levels, ind) ==
  LET top == Last(levels)
      at == {k \in 1..Len(levels) : levels[k] = ind}
  IN IF at # {} THEN LET k == MaxOf(at) IN [levels |-> SubSeq(levels, 1, k), inn |-> 0, out |-> Len(levels) - k, ok |-> TRUE]
     ELSE IF IsPre(top, ind) THEN [levels |-> Append(levels, ind), inn |-> 1, out |-> 0, ok |-> TRUE]
     ELSE [levels |-> levels, inn |-> 0, out |-> 0, ok |-> FALSE]

(* where the error of a bad line is: at the space or side token just before  *)
(* the first token, or at that token                                         *)
Blame(raw, adj, roles, i) == IF i > 1 /\ adj[i] = 1 /\ roles[i - 1] \in {"space", "side"} THEN i - 1 ELSE i

(* marks: <<where, how many, type name>>..; err: index of the blamed token   *)
RECURSIVE Layout(_, _, _, _, _, _)
Layout(cfg, raw, adj, roles, i, levels) ==
  LET none == [marks |-> <<>>, err |-> 0, first |-> 0]
      mark(n, name) == IF n = 0 THEN <<>> ELSE <<[at |-> MarkAt(raw, roles, i), n |-> n, name |-> name]>>
      rest(lv, ms) == LET r == Layout(cfg, raw, adj, roles, i + 1, lv) IN [r EXCEPT !.marks = ms \o @]
  IN IF i > Len(raw) THEN none
     ELSE IF roles[i] = "end" THEN [none EXCEPT !.marks = mark(Len(levels) - 1, cfg.off)]
     ELSE IF ~ FirstOfLine(raw, roles, i) THEN rest(levels, <<>>)
     ELSE LET d == Line(levels, Indentation(raw, roles, i))
          IN IF SideBefore(raw, roles, i) \/ ~ d.ok THEN [none EXCEPT !.err = Blame(raw, adj, roles, i), !.first = i]
             ELSE rest(d.levels, mark(d.inn, cfg.on) \o mark(d.out, cfg.off))
Whole(cfg, raw, adj, roles) == Layout(cfg, raw, adj, roles, 1, <<<<>>>>)

(* what comes out: entries <<type name, text, source, position>> *)
Entry(t) == <<t.n, t.x, t.s, t.p>>
RECURSIVE Repeated(_, _)
Repeated(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeated(x, n - 1)
RECURSIVE MarksAt(_, _)
MarksAt(marks, i) ==
  IF marks = <<>> THEN <<>>
  ELSE (IF Head(marks).at = i THEN Repeated(<<Head(marks).name, <<>>, 0, 0>>, Head(marks).n) ELSE <<>>) \o MarksAt(Tail(marks), i)
RECURSIVE Stream(_, _, _)
Stream(raw, marks, i) == IF i > Len(raw) THEN <<>> ELSE MarksAt(marks, i) \o <<Entry(raw[i])>> \o Stream(raw, marks, i + 1)
=============================================================================
