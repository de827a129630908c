------------------------------ MODULE Building ------------------------------
(* The syntax tree built by the tree node hook (property C15).               *)
(* A tree is a list of elements in document order, each naming its parent;   *)
(* it grows with every call a node hook gets: opening a node adds a node     *)
(* element to the node being built, a token adds a token element to it.      *)
(* b: els the elements, open the stack of the nodes being built.             *)
EXTENDS Util

Nothing == [els |-> <<>>, open |-> <<>>]
Parent(b) == IF b.open = <<>> THEN 0 ELSE Last(b.open)
AddNode(b, name, tok) ==
  [els |-> Append(b.els, [node |-> 1, n |-> name, tok |-> tok, par |-> Parent(b)]), open |-> Append(b.open, Len(b.els) + 1)]
AddToken(b, tok) == [b EXCEPT !.els = Append(@, [node |-> 0, n |-> tok.n, tok |-> tok, par |-> Parent(b)])]
Close(b) == [b EXCEPT !.open = Front(@)]
Call(b, e) == CASE e.e = "open" -> AddNode(b, e.n, e.tok)
                [] e.e = "tok" -> AddToken(b, e.tok)
                [] e.e = "end" -> Close(b)
                [] OTHER -> b

(* the links that follow from parents and order *)
Kids(els, i) == SetToAscSeq({j \in 1..Len(els) : els[j].par = i})
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Linked(els) ==
  LET kids == [i \in 0..Len(els) |-> Kids(els, i)]
      link(i) == LET s == kids[els[i].par]
                     k == At(s, i)
                     c == kids[i]
                 IN [prev |-> IF k = 1 THEN 0 ELSE s[k - 1], next |-> IF k = Len(s) THEN 0 ELSE s[k + 1],
                     first |-> IF c = <<>> THEN 0 ELSE c[1], last |-> IF c = <<>> THEN 0 ELSE Last(c)]
  IN [i \in 1..Len(els) |-> els[i] @@ link(i)]
RECURSIVE Texts(_)
Texts(els) == IF els = <<>> THEN <<>> ELSE (IF Head(els).node = 1 THEN <<>> ELSE Head(els).tok.x) \o Texts(Tail(els))
=============================================================================
