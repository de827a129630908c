------------------------------ MODULE MCLayers ------------------------------
(* Hook layers of Machine.tla closed over small grammars, configurations and *)
(* all short texts.  What the layers do is stated here over whole streams,   *)
(* without queues and without pulling: programs and conversions as functions *)
(* from streams to streams (C06, C11), indentation by lines (C10, from       *)
(* Indent.tla), restrictions by ancestors (C12).                             *)
EXTENDS Machine
I == INSTANCE Indent
CONSTANTS N, Sides, Fulls, Two
VARIABLES ci, ins, sides, full, m, log
vars == <<ci, ins, sides, full, m, log>>
C == Cases[ci]
T == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
K == [tab |-> C.tab, types |-> T, ins |-> ins, cfg |-> C.cfg, sides |-> sides, full |-> full, failAt |-> 0, stopAt |-> 0]
RECURSIVE Queue(_, _, _)
Queue(lens, i, q) == IF i > Len(lens) THEN q ELSE Queue(lens, i + 1, DoAppend(lens, q, i))
Queue0 == Queue(Lens(ins), 1, <<>>)
Size == Min(N, C.most)
Words == UNION {[1..k -> 1..Len(C.alpha)] : k \in 0..Size}
Text(w) == FlattenSeq([i \in 1..Len(w) |-> C.alpha[w[i]]])
Init == /\ ci \in 1..Len(Cases) /\ sides \in Sides /\ full \in Fulls
        /\ \E w \in Words : \E k \in 0..(IF Two THEN Len(w) ELSE 0) :
             ins = IF k = 0 THEN <<Text(w)>> ELSE <<Text(SubSeq(w, 1, k)), Text(SubSeq(w, k + 1, Len(w)))>>
        /\ m = Open(K, Queue0) /\ log = m.ev
(* what is seen only grows: it is looked at when the parse is over *)
Next == /\ ~ Over(m) /\ m' = Step(K, m) /\ log' = log \o m'.ev /\ UNCHANGED <<ci, ins, sides, full>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good == m.ph = "done" /\ ~ Failed(m)

(* ---- all the tokens of the sources, marks at the ends of files, too ------ *)
RECURSIVE Raw(_, _)                            \* [toks, err]
Raw(q, acc) ==
  LET r == Fetch(ins, T, q, ALL)
  IN IF r.err # NoErr THEN [toks |-> acc, err |-> r.err]
     ELSE IF r.tok.t = EoiT THEN [toks |-> Append(acc, r.tok), err |-> NoErr]
     ELSE Raw(r.q, Append(acc, r.tok))
All == Raw(Queue0, <<>>)

(* ---- C06, C11: layers as functions of streams ----------------------------- *)
(* what a conversion makes of a token: a new text, and the type and position of the token or others *)
TypeName(i) == IF i = EofT THEN "-eof-" ELSE IF i = EoiT THEN "-eoi-" ELSE C.tab.tokens[i + 1].n
NumberOf(name) == CHOOSE i \in 0..(Len(C.tab.tokens) - 1) : C.tab.tokens[i + 1].lit = 0 /\ C.tab.tokens[i + 1].n = name
Converted(c, tok) ==
  LET texts == {i \in 1..Len(c.map) : c.map[i].f = tok.x}
      named == c.in # "" => TypeName(tok.t) = c.in
      new == IF c.out = "" THEN tok ELSE [tok EXCEPT !.t = NumberOf(c.out), !.n = c.out]
  IN IF tok.t < 0 \/ texts = {} \/ ~ named THEN <<>>
     ELSE LET x == [new EXCEPT !.x = c.map[CHOOSE i \in texts : \A k \in texts : i <= k].t]
          IN <<IF c.save = 1 THEN x ELSE [x EXCEPT !.s = 0, !.p = 0]>>
(* what a program emits: the token itself or a token from nowhere *)
Emitted(tok, x) == IF x.self = 1 THEN tok
                   ELSE [t |-> CASE x.n = "-eof-" -> EofT [] x.n = "-eoi-" -> EoiT [] OTHER -> NumberOf(x.n), n |-> x.n, x |-> x.b, s |-> 0, p |-> 0]
(* programs hook token types, "" means all the other types of tokens with text *)
Hooked(c, tok) == IF TypeName(tok.t) \in Range(c.toks) THEN "type:" \o TypeName(tok.t)
                  ELSE IF tok.t >= 0 /\ "" \in Range(c.toks) THEN "type:" ELSE ""
(* [out, seen]: what leaves the layer; what its hooks are called with.  A mark that is not kept is *)
(* kept all the same, after what is emitted instead                                                *)
Passes(tok, keep, xs) == IF keep THEN <<tok>> \o xs ELSE IF tok.t >= 0 THEN xs ELSE Append(xs, tok)
RECURSIVE Layer(_, _, _)
Layer(c, toks, n) ==
  IF toks = <<>> THEN [out |-> <<>>, seen |-> <<>>]
  ELSE LET tok == Head(toks)
           key == IF c.kind = "prog" THEN Hooked(c, tok) ELSE ""
           a == IF c.prog = <<>> THEN [keep |-> 1, x |-> <<>>] ELSE c.prog[(n % Len(c.prog)) + 1]
           conv == IF c.kind = "convert" THEN Converted(c, tok) ELSE <<>>
           out == IF c.kind = "convert" THEN Passes(tok, conv = <<>>, conv)
                  ELSE IF key = "" THEN <<tok>>
                  ELSE Passes(tok, a.keep = 1, [i \in 1..Len(a.x) |-> Emitted(tok, a.x[i])])
           r == Layer(c, Tail(toks), IF key = "" THEN n ELSE n + 1)
       IN [out |-> out \o r.out, seen |-> (IF key = "" THEN <<>> ELSE <<<<key, tok>>>>) \o r.seen]
(* the layers of the grammar in the order of their definition, then the user's hooks *)
Order == [i \in 1..Len(C.cfg) |-> IF i < Len(C.cfg) THEN i + 1 ELSE 1]
RECURSIVE Entering(_)                          \* the stream that enters the i-th of them
Entering(i) == IF i = 1 THEN All.toks ELSE Layer(C.cfg[Order[i - 1]], Entering(i - 1), 0).out
Leaving == Entering(Len(C.cfg) + 1)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Calls(j) == LET es == SelectSeq(log, LAMBDA e : e.e = "tk" /\ e.l = j - 1) IN [i \in 1..Len(es) |-> <<es[i].key, es[i].tok>>]
UpToEnd(toks) == LET e == {i \in 1..Len(toks) : toks[i].t = EoiT} IN IF e = {} THEN toks ELSE SubSeq(toks, 1, MinOf(e) - 1)
Visible(toks) == SelectSeq(toks, LAMBDA t : t.t # EofT /\ (sides = 1 \/ ~ IsSide(K, t)))
Taken == LET es == SelectSeq(log, LAMBDA e : e.e = "tok") IN [i \in 1..Len(es) |-> es[i].tok]
StreamHolds ==
  C.kind = "stream" /\ Over(m) =>
    LET left == Leaving
    IN /\ \A i \in 1..Len(C.cfg) : IsPre(Calls(Order[i]), Layer(C.cfg[Order[i]], Entering(i), 0).seen)
       /\ IsPre(Taken, Visible(UpToEnd(left)))
       /\ Good => Taken = Visible(UpToEnd(left))
       /\ Failed(m) => All.err # NoErr /\ m.err = All.err
       /\ Over(m) /\ All.err # NoErr /\ full = 1 => Failed(m) \/ \E t \in Range(left) : t.t = EoiT
(* looking ahead shows what is coming, and never changes it *)
PeekHolds ==
  C.kind = "stream" /\ Over(m) /\ Len(TokLayers(K)) = 1 =>
    \A i \in 1..Len(log) : log[i].e = "tk" /\ log[i].tok.t # EoiT =>
      LET e == log[i]
          left == {k \in 1..Len(All.toks) : All.toks[k] = e.tok}     \* tokens of the sources are all different
      IN \A k \in 1..Len(e.peek) : LET x == MaxOf(left) + k IN
           IF x <= Len(All.toks) THEN e.peek[k] = [tok |-> All.toks[x], err |-> 0]
           ELSE e.peek[k].err # 0 \/ e.peek[k].tok = EoiTok

(* ---- C10 ------------------------------------------------------------------ *)
IC == CHOOSE c \in Range(K.cfg) : c.kind = "indent"
IndentHolds ==
  C.kind = "indent" /\ Over(m) =>
    LET raw == SelectSeq(All.toks, LAMBDA t : t.t # EofT)
        at == SelectIdx(All.toks, LAMBDA t : t.t # EofT)
        nth(i) == CHOOSE k \in at : Cardinality({j \in at : j <= k}) = i
        adj == [i \in 1..Len(raw) |-> IF nth(i) = 1 \/ All.toks[nth(i) - 1].t # EofT THEN 1 ELSE 0]
        roles == I!Roles(T, IC, raw)
        w == I!Whole(IC, raw, adj, roles)
        upto == IF w.err = 0 THEN I!Stream(raw, w.marks, 1) ELSE I!Stream(SubSeq(raw, 1, w.first - 1), w.marks, 1)
        seen == LET cs == SelectSeq(Calls(1), LAMBDA x : x[2].t # EofT) IN [i \in 1..Len(cs) |-> I!Entry(cs[i][2])]
    IN /\ IsPre(seen, upto)
       /\ Good => w.err = 0 /\ (IF All.err = NoErr THEN seen = upto ELSE full = 0)
       /\ Failed(m) => m.err = IF w.err > 0 THEN ErrAt(ins, WrongToken, raw[w.err].s, raw[w.err].p) ELSE All.err
(* every level that is opened is closed *)
BalanceHolds ==
  C.kind = "indent" /\ Over(m) =>
    LET ts == [i \in 1..Len(Calls(1)) |-> Calls(1)[i][2]]
        n(k, name) == Cardinality({i \in 1..k : ts[i].n = name})
    IN /\ \A k \in 1..Len(ts) : n(k, IC.off) <= n(k, IC.on)
       /\ Good /\ All.err = NoErr => n(Len(ts), IC.off) = n(Len(ts), IC.on)

(* ---- C12 ------------------------------------------------------------------ *)
RC == CHOOSE c \in Range(K.cfg) : c.kind = "restrict"
Forbidden(e) ==                                \* the innermost listed ancestor forbids the node
  /\ e.n \in Range(RC.node)
  /\ \E i \in 1..Len(e.stk) : e.stk[i] \in Range(RC.forbid) /\ \A k \in 1..(i - 1) : e.stk[k] \notin Range(RC.forbid) \cup Range(RC.allow)
RestrictHolds ==
  C.kind = "restrict" /\ Over(m) =>
    /\ \A i \in 1..Len(log) : log[i].e = "open" /\ Forbidden(log[i]) => i = Len(log) /\ m.err = ErrAt(ins, WrongToken, log[i].tok.s, log[i].tok.p)
    /\ m.err.code = WrongToken => log # <<>> /\ Last(log).e = "open" /\ Forbidden(Last(log))
Terminates == <>Over(m)
=============================================================================
