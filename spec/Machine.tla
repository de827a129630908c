------------------------------ MODULE Machine ------------------------------
(* The parser as a state machine (properties C03-C06, C09, C15, C20, C21):   *)
(* source queue, token pipeline of hook layers, look-ahead with branches,    *)
(* node stack with hooks, side tokens, giving tokens back.                   *)
(*                                                                           *)
(* K, the parameters of a parse:                                             *)
(*   tab    compiled tables        types  token types (Lexemes.tla)          *)
(*   ins    source texts           cfg    hook layers: cfg[1] the user's,    *)
(*          cfg[j+1] the j-th grammar layer                                  *)
(*   sides, full                   options WithSides, WithFullSource         *)
(*   failAt, stopAt                number of the hook call that fails or     *)
(*                                 cancels the context (0: none)             *)
(* m, the state:                                                             *)
(*   q      source queue           tk     tokens fetched ahead               *)
(*   ap     rules waiting to be replayed   st  node stack, top last          *)
(*   lq     extra tokens of each token hook layer     pp  program counters   *)
(*   ev     hook calls made by the last step          calls  their number    *)
(*   inst   instances made         last   result     can  context cancelled  *)
(*   ph     phase: "fetch", "rule", "end", "rest", "done"                    *)
(*   tok, used   current token, has it been consumed                         *)
EXTENDS Lexemes

AnyT == -1
Final == -1
Same == -1
Repeat == -128

St(K, s) == K.tab.states[s + 1]
NodeName(K, i) == K.tab.nodes[i + 1].n
TokDef(K, t) == K.tab.tokens[t + 1]
IsSide(K, tok) == tok.t >= 0 /\ tok.t < Len(K.tab.tokens) /\ TokDef(K, tok.t).side = 1
ValidType(K, t) == t >= EoiT /\ t < Len(K.tab.tokens) /\ t # AnyT

(* ---- layers ---- *)
TokLayers(K) == LET n == Len(K.cfg)
                    order == [i \in 1..n |-> IF i = 1 THEN 1 ELSE n + 2 - i]
                IN SelectSeq(order, LAMBDA j : K.cfg[j].toks # <<>> \/ K.cfg[j].lits # <<>> \/ K.cfg[j].kind \in {"convert", "indent"})
NodeLayers(K) == LET n == Len(K.cfg)
                     order == [i \in 1..n |-> IF i = 1 THEN 1 ELSE n + 2 - i]
                 IN SelectSeq(order, LAMBDA j : K.cfg[j].nodes # <<>> \/ K.cfg[j].kind = "restrict")
Watch(K) == K.cfg # <<>> /\ K.cfg[1].nodes # <<>>

NoIndent == [st |-> "valid", stack |-> <<>>, valid |-> <<>>, cur |-> <<>>, sp |-> <<>>]
Start0(K, q) ==
  [q |-> q, tk |-> <<>>, ap |-> <<>>, st |-> <<>>, lq |-> [i \in 1..Len(TokLayers(K)) |-> <<>>],
   pp |-> [i \in 1..Len(K.cfg) |-> 0], ls |-> [i \in 1..Len(K.cfg) |-> NoIndent], ev |-> <<>>, calls |-> 0, inst |-> 0, last |-> 0, can |-> K.stopAt < 0,
   ph |-> "fetch", tok |-> NilTok, used |-> FALSE, err |-> NoErr]

Failed(m) == m.err # NoErr
HookErr == [NoErr EXCEPT !.k = "hook"]
CtxErr == [NoErr EXCEPT !.k = "ctx"]
Fail(m, e) == [m EXCEPT !.err = e]

(* a hook call *)
Emit(K, m, e) ==
  LET n == m.calls + 1
  IN [m EXCEPT !.calls = n, !.ev = Append(@, e), !.can = @ \/ n = K.stopAt,
               !.err = IF n = K.failAt THEN HookErr ELSE @]

(* ---- token hooks ---- *)
HookKey(K, j, tok) ==                       \* key of the hook of layer j, "" if none
  LET c == K.cfg[j]
      lits == {i \in 1..Len(c.lits) : c.lits[i].b = tok.x}
      typ(name) == IF name \in Range(c.toks) THEN "type:" \o name ELSE ""
  IN IF tok.t < 0 THEN (IF tok.n # "" THEN typ(tok.n) ELSE "")
     ELSE IF TokDef(K, tok.t).nolit = 0 /\ lits # {} THEN "lit:" \o c.lits[MinOf(lits)].n
     ELSE IF typ(TokDef(K, tok.t).n) # "" THEN typ(TokDef(K, tok.t).n)
     ELSE typ("")

Action(K, j, n) ==
  LET p == K.cfg[j].prog IN IF p = <<>> THEN [keep |-> 1, peek |-> 0, x |-> <<>>] ELSE p[(n % Len(p)) + 1]

TypeByName(K, n) ==
  IF n = "-eof-" THEN EofT ELSE IF n = "-eoi-" THEN EoiT
  ELSE (CHOOSE i \in 1..Len(K.tab.tokens) : K.tab.tokens[i].n = n /\ K.tab.tokens[i].lit = 0) - 1
ExtraTok(K, tok, x) ==
  IF x.self = 1 THEN tok
  ELSE IF x.n # "" THEN [t |-> TypeByName(K, x.n), n |-> x.n, x |-> x.b, s |-> 0, p |-> 0]
  ELSE [t |-> x.t, n |-> "?", x |-> x.b, s |-> 0, p |-> 0]

(* tokens seen by looking ahead from the hook of layer number L *)
RECURSIVE PeekRaw(_, _, _)
PeekRaw(K, q, n) ==
  IF n = 0 THEN <<>>
  ELSE LET r == Fetch(K.ins, K.types, q, ALL)
       IN IF r.err # NoErr THEN <<[tok |-> NilTok, err |-> r.err.code]>>
          ELSE <<[tok |-> r.tok, err |-> 0]>> \o PeekRaw(K, r.q, n - 1)
Peeks(K, m, L, n) ==
  LET ready == FlattenSeq([i \in 1..(Len(m.lq) - L) |-> m.lq[L + i]])
      k == Min(n, Len(ready))
  IN [i \in 1..k |-> [tok |-> ready[i], err |-> 0]] \o PeekRaw(K, m.q, n - k)

(* ---- the standard layers ---- *)
WrongToken == 407
Conversion(K, c, tok) ==                    \* the token convert layer c makes of tok: <<>> or one token
  LET of == IF c.in = "" THEN tok.t >= 0 ELSE tok.n = c.in
      hit == {i \in 1..Len(c.map) : c.map[i].f = tok.x}
      to == c.map[MinOf(hit)].t
      pos(y) == IF c.save = 1 THEN [y EXCEPT !.s = tok.s, !.p = tok.p] ELSE y
  IN IF ~ of \/ hit = {} THEN <<>>
     ELSE IF c.out = "" THEN <<pos([tok EXCEPT !.x = to, !.s = 0, !.p = 0])>>
     ELSE <<pos([t |-> TypeByName(K, c.out), n |-> c.out, x |-> to, s |-> 0, p |-> 0])>>

(* the indent layer; ls: st line state, stack and valid indentations, cur the *)
(* one of this line, sp space tokens held back                                *)
Nl == 10
AfterNl(b) == LET n == {i \in 1..Len(b) : b[i] = Nl} IN IF n = {} THEN b ELSE SubSeq(b, MaxOf(n) + 1, Len(b))
HasNl(b) == \E i \in 1..Len(b) : b[i] = Nl
Starts(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IndentRole(K, c, tok) ==
  IF tok.t = EoiT THEN "eoi"
  ELSE IF tok.t < 0 \/ tok.x = <<>> THEN "empty"
  ELSE IF \E i \in 1..Len(c.space) : TypeByName(K, c.space[i]) = tok.t THEN "space"
  ELSE IF IsSide(K, tok) THEN "side" ELSE "common"
Level(ls, cur) ==
  IF Len(cur) > Len(ls.valid) THEN (IF Starts(ls.valid, cur) THEN "deeper" ELSE "wrong")
  ELSE IF ~ Starts(cur, ls.valid) THEN "wrong"
  ELSE IF cur = ls.valid THEN "valid"
  ELSE IF \E i \in 1..Len(ls.stack) : Len(ls.stack[i]) = Len(cur) THEN "less" ELSE "wrong"
Mark(K, n) == [t |-> TypeByName(K, n), n |-> n, x |-> <<>>, s |-> 0, p |-> 0]
(* the indent and dedent tokens for a line of level ls.st: [ls, out] *)
Marks(K, c, ls) ==
  IF ls.st = "deeper" THEN [ls |-> [ls EXCEPT !.stack = Append(@, ls.valid), !.valid = ls.cur], out |-> <<Mark(K, c.on)>>]
  ELSE IF ls.st = "less" THEN
    LET at == MaxOf({i \in 1..Len(ls.stack) : Len(ls.stack[i]) = Len(ls.cur)})
    IN [ls |-> [ls EXCEPT !.stack = SubSeq(@, 1, at - 1), !.valid = ls.cur], out |-> [i \in 1..(Len(ls.stack) - at + 1) |-> Mark(K, c.off)]]
  ELSE [ls |-> ls, out |-> <<>>]
(* [ls, keep, extra, err] *)
IndentStep(K, c, ls, tok, next, bad) ==
  LET role == IndentRole(K, c, tok)
      ahead == IF next = NilTok THEN "empty" ELSE IndentRole(K, c, next)
      res(l, keep, extra) == [ls |-> l, keep |-> keep, extra |-> extra, err |-> NoErr]
      wrong == [ls |-> ls, keep |-> FALSE, extra |-> <<>>, err |-> ErrAt(K.ins, WrongToken, tok.s, tok.p)]
      first(l, toks) ==                     \* the line has its first token
        LET d == Marks(K, c, l) IN res([d.ls EXCEPT !.st = "in", !.sp = <<>>], FALSE, d.out \o l.sp \o toks)
      new == [ls EXCEPT !.cur = <<>>, !.st = IF ls.valid = <<>> THEN "valid" ELSE "less"]
      l1 == IF HasNl(tok.x) THEN new ELSE ls
      cur == l1.cur \o AfterNl(tok.x)
      l2 == IF l1.st = "side" THEN l1 ELSE [l1 EXCEPT !.cur = cur, !.st = Level(l1, cur)]
      l3 == [l2 EXCEPT !.sp = Append(@, tok)]
  IN CASE role = "eoi" -> res([ls EXCEPT !.stack = <<>>, !.valid = <<>>, !.sp = <<>>], FALSE,
                              [i \in 1..Len(ls.stack) |-> Mark(K, c.off)] \o ls.sp)
       [] role = "empty" -> res(ls, TRUE, <<>>)
       [] role = "common" -> IF ls.st = "in" THEN res(ls, TRUE, <<>>)
                             ELSE IF ls.st \in {"wrong", "side"} THEN wrong ELSE first(ls, <<tok>>)
       [] role = "space" -> IF l1.st = "in" THEN res(ls, TRUE, <<>>)
                            ELSE IF bad # NoErr THEN [wrong EXCEPT !.err = bad]
                            ELSE IF ahead # "common" THEN res(l3, FALSE, <<>>)
                            ELSE IF l3.st \in {"wrong", "side"} THEN wrong ELSE first(l3, <<>>)
       [] role = "side" -> IF ls.st = "in" THEN res(ls, TRUE, <<>>)
                           ELSE IF bad # NoErr THEN [wrong EXCEPT !.err = bad]
                           ELSE IF ahead = "common" THEN wrong
                           ELSE res([ls EXCEPT !.st = "side", !.sp = <<>>], FALSE, Append(ls.sp, tok))

(* what layer L does with a token: [m, keep, extra] *)
Handle(K, m, tok, L) ==
  LET j == TokLayers(K)[L]
      c == K.cfg[j]
      key == HookKey(K, j, tok)
      made == IF c.kind = "convert" THEN Conversion(K, c, tok) ELSE <<>>
      done(m1, keep, xs) ==
        IF keep \/ tok.t >= 0 THEN [m |-> m1, keep |-> keep, extra |-> xs]
        ELSE IF xs = <<>> THEN [m |-> m1, keep |-> TRUE, extra |-> <<>>]
        ELSE [m |-> m1, keep |-> FALSE, extra |-> Append(xs, tok)]
  IN IF tok = NilTok THEN [m |-> m, keep |-> TRUE, extra |-> <<>>]
     ELSE IF m.can THEN [m |-> Fail(m, CtxErr), keep |-> FALSE, extra |-> <<>>]
     ELSE IF c.kind = "convert" THEN done(m, made = <<>>, made)
     ELSE IF c.kind = "indent" THEN
       IF tok.t < 0 /\ tok.t # EoiT THEN done(m, TRUE, <<>>)
       ELSE LET ready == FlattenSeq([i \in 1..(Len(m.lq) - L) |-> m.lq[L + i]])
                r == IF ready # <<>> THEN [tok |-> ready[1], err |-> NoErr] ELSE Fetch(K.ins, K.types, m.q, ALL)
                d == IndentStep(K, c, m.ls[j], tok, r.tok, r.err)
            IN IF d.err # NoErr THEN [m |-> Fail(m, d.err), keep |-> FALSE, extra |-> <<>>]
               ELSE done([m EXCEPT !.ls[j] = d.ls], d.keep, d.extra)
     ELSE IF key = "" THEN [m |-> m, keep |-> TRUE, extra |-> <<>>]
     ELSE LET a == Action(K, j, m.pp[j])
              m1 == Emit(K, [m EXCEPT !.pp[j] = @ + 1],
                         [e |-> "tk", l |-> j - 1, key |-> key, tok |-> tok, peek |-> Peeks(K, m, L, a.peek)])
          IN done(m1, a.keep = 1, [i \in 1..Len(a.x) |-> ExtraTok(K, tok, a.x[i])])

EmitWrong == 301
RECURSIVE Pull(_, _, _, _)
Pull(K, m, L, mask) ==                      \* [m, tok]
  IF L > Len(m.lq) THEN
    LET r == Fetch(K.ins, K.types, m.q, mask)
    IN [m |-> [m EXCEPT !.q = r.q, !.err = r.err], tok |-> r.tok]
  ELSE IF m.lq[L] # <<>> THEN [m |-> [m EXCEPT !.lq[L] = Tail(@)], tok |-> Head(m.lq[L])]
  ELSE LET u == Pull(K, m, L + 1, mask)
       IN IF Failed(u.m) THEN u
          ELSE LET h == Handle(K, u.m, u.tok, L)
                   wrong == SelectIdx(h.extra, LAMBDA x : ~ ValidType(K, x.t))
               IN IF Failed(h.m) THEN [m |-> h.m, tok |-> NilTok]
                  ELSE IF wrong # {} THEN
                    LET w == h.extra[MinOf(wrong)]
                    IN [m |-> Fail(h.m, ErrAt(K.ins, EmitWrong, w.s, w.p)), tok |-> NilTok]
                  ELSE LET m1 == [h.m EXCEPT !.lq[L] = @ \o h.extra]
                       IN IF h.keep THEN [m |-> m1, tok |-> u.tok] ELSE Pull(K, m1, L, mask)

RECURSIVE PullVisible(_, _, _)
PullVisible(K, m, mask) ==
  LET u == Pull(K, m, 1, mask)
  IN IF Failed(u.m) THEN u
     ELSE IF u.tok.t = EofT \/ (u.tok # NilTok /\ IsSide(K, u.tok) /\ K.sides = 0) THEN PullVisible(K, u.m, mask)
     ELSE u
NextTok(K, m, mask) ==
  IF m.tk # <<>> THEN [m |-> [m EXCEPT !.tk = Tail(@)], tok |-> Head(m.tk)] ELSE PullVisible(K, m, mask)

(* ---- rules ---- *)
RulesFor(st, key) ==
  LET one == SelectSeq(st.rules, LAMBDA r : r[1] = key)
      many == SelectSeq(st.multi, LAMBDA r : r.key = key)
  IN IF one # <<>> THEN <<one[1]>> ELSE IF many # <<>> THEN many[1].rules ELSE <<>>
Keys(K, tok) ==
  IF tok = NilTok THEN <<AnyT>>
  ELSE LET plain == tok.t < 0 \/ TokDef(K, IF tok.t < 0 THEN 0 ELSE tok.t).nolit = 1
           text == IF tok.t >= 0 /\ TokDef(K, tok.t).cl = 1 THEN UpperB(tok.x) ELSE tok.x
           lits == IF plain THEN {} ELSE {i \in 1..Len(K.tab.tokens) : K.tab.tokens[i].lit = 1 /\ K.tab.tokens[i].b = text}
           lit == MinOf(lits)
       IN (IF lits # {} THEN <<lit - 1>> ELSE <<>>)
          \o (IF lits # {} /\ K.tab.tokens[lit].rsv = 1 THEN <<>> ELSE <<tok.t>>)
          \o <<AnyT>>
RECURSIVE FirstRules(_, _)
FirstRules(st, keys) ==
  IF keys = <<>> THEN <<>>
  ELSE LET rs == RulesFor(st, Head(keys)) IN IF rs # <<>> THEN rs ELSE FirstRules(st, Tail(keys))
FindRules(K, tok, s) ==
  IF tok # NilTok /\ IsSide(K, tok) THEN <<<<tok.t, Repeat, Same>>>> ELSE FirstRules(St(K, s), Keys(K, tok))
Consumes(tok, rule) == (rule[3] = Same /\ rule[1] # AnyT) \/ tok = NilTok

(* ---- look-ahead: branches [st |-> <<state>>.., ap |-> rules applied] ---- *)
RECURSIVE PopBranch(_)
PopBranch(st) == IF st # <<>> /\ Last(st) = Final THEN PopBranch(Front(st)) ELSE st
BranchApply(K, b, rule) ==
  LET st1 == IF rule[2] = Repeat THEN b.st ELSE Front(b.st) \o <<rule[2]>>
      st2 == IF rule[3] = Same THEN st1 ELSE Append(st1, K.tab.nodes[rule[3] + 1].s)
  IN [st |-> PopBranch(st2), ap |-> Append(b.ap, rule)]

(* all variants of the branches in queue q until each one takes the token:   *)
(* [next, good, bad] *)
Limit == 40                                 \* more variants than that are not followed by this specification
TooBig == [NoErr EXCEPT !.k = "big"]
RECURSIVE Explore(_, _, _, _)
Explore(K, tok, q, r) ==
  IF q = <<>> \/ r.big THEN r
  ELSE IF Len(q) > Limit \/ Len(r.next) > Limit THEN [r EXCEPT !.big = TRUE]
  ELSE LET b == Head(q)
           rest == Tail(q)
       IN IF b.st = <<>> THEN
            IF tok # NilTok /\ IsSide(K, tok) THEN Explore(K, tok, rest, [r EXCEPT !.next = Append(@, b)])
            ELSE Explore(K, tok, rest, [r EXCEPT !.good = <<b>>])
          ELSE LET rules == FindRules(K, tok, Last(b.st))
                   made == [i \in 1..Len(rules) |-> [b |-> BranchApply(K, b, rules[i]), used |-> Consumes(tok, rules[i])]]
                   used == SelectSeq(made, LAMBDA x : x.used)
                   over == SelectSeq(made, LAMBDA x : ~ x.used /\ x.b.st = <<>>)
                   more == SelectSeq(made, LAMBDA x : ~ x.used /\ x.b.st # <<>>)
                   bs(s) == [i \in 1..Len(s) |-> s[i].b]
               IN IF rules = <<>> THEN Explore(K, tok, rest, [r EXCEPT !.bad = <<b>>])
                  ELSE Explore(K, tok, rest \o bs(more),
                               [r EXCEPT !.next = @ \o bs(used),
                                         !.good = IF over = <<>> THEN @ ELSE <<Last(over).b>>])
RECURSIVE ExploreEach(_, _, _, _)
ExploreEach(K, tok, bs, r) ==
  IF bs = <<>> THEN r ELSE ExploreEach(K, tok, Tail(bs), Explore(K, tok, <<Head(bs)>>, r))

BranchTypes(K, bs) == UNION {IF b.st = <<>> THEN {} ELSE Range(St(K, Last(b.st)).types) : b \in Range(bs)}
(* [m, toks, rules]: tokens looked at and rules of the winner *)
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(K, m, tok, bs, toks, bad) ==
  LET r == ExploreEach(K, tok, bs, [next |-> <<>>, good |-> <<>>, bad |-> bad, big |-> FALSE])
      ts == Append(toks, tok)
      winner == IF r.next # <<>> THEN r.next[1] ELSE IF r.good # <<>> THEN r.good[1] ELSE r.bad[1]
      types == BranchTypes(K, r.next)
  IN IF r.big THEN [m |-> Fail(m, TooBig), toks |-> ts, rules |-> <<>>]
     ELSE IF Len(r.next) <= 1 \/ types = {} THEN [m |-> m, toks |-> ts, rules |-> winner.ap]
     ELSE LET u == NextTok(K, m, types)
          IN IF Failed(u.m) THEN [m |-> u.m, toks |-> ts, rules |-> <<>>]
             ELSE Rounds(K, u.m, u.tok, r.next, ts, r.bad)
Resolve(K, m, tok) == Rounds(K, m, tok, <<[st |-> <<Last(m.st).state>>, ap |-> <<>>]>>, <<>>, <<>>)

(* ---- node hooks ---- *)
Inst(h) == h.k = "inst"
RECURSIVE EmitAll(_, _, _)
EmitAll(K, m, es) == IF es = <<>> \/ Failed(m) THEN m ELSE EmitAll(K, Emit(K, m, Head(es)), Tail(es))
TokEvents(hooks, toks) ==
  FlattenSeq([i \in 1..Len(toks) |->
    LET hs == SelectSeq(hooks, Inst) IN [j \in 1..Len(hs) |-> [e |-> "tok", i |-> hs[j].i, tok |-> toks[i]]]])
SetTop(m, n) == [m EXCEPT !.st = Append(Front(@), n)]
Flush(K, m) ==
  LET n == Last(m.st) m1 == EmitAll(K, m, TokEvents(n.hooks, n.sides))
  IN SetTop(m1, [n EXCEPT !.sides = <<>>])

NodeMode(K, j, name) ==                     \* 0: no hook, 1: instance, 2: nil, 3: default
  LET ns == K.cfg[j].nodes
      own == SelectSeq(ns, LAMBDA x : x.n = name)
      any == SelectSeq(ns, LAMBDA x : x.n = "")
  IN IF own # <<>> THEN own[1].m ELSE IF any # <<>> THEN any[1].m ELSE IF j = 1 THEN 3 ELSE 0
Stack(K, st) == Rev([i \in 1..Len(st) |-> NodeName(K, st[i].nd)])
(* the restrict layer: the closest listed ancestor decides *)
Restricted(K, j, name, st) ==
  LET c == K.cfg[j]
      near == SelectSeq(Stack(K, st), LAMBDA n : n \in Range(c.forbid) \cup Range(c.allow))
  IN c.kind = "restrict" /\ name \in Range(c.node) /\ near # <<>> /\ near[1] \in Range(c.forbid)
RECURSIVE MakeHooks(_, _, _, _, _, _)
MakeHooks(K, m, nd, tok, i, hooks) ==       \* [m, hooks]
  IF i > Len(NodeLayers(K)) \/ Failed(m) THEN [m |-> m, hooks |-> hooks]
  ELSE IF Restricted(K, NodeLayers(K)[i], NodeName(K, nd), m.st)
       THEN [m |-> Fail(m, ErrAt(K.ins, WrongToken, tok.s, tok.p)), hooks |-> hooks]
  ELSE LET j == NodeLayers(K)[i]
           name == NodeName(K, nd)
           mode == IF K.cfg[j].kind = "restrict" THEN 0 ELSE NodeMode(K, j, name)
           id == IF mode = 1 THEN m.inst + 1 ELSE 0
           m1 == IF mode \in {1, 2}
                 THEN Emit(K, [m EXCEPT !.inst = IF mode = 1 THEN id ELSE @],
                           [e |-> "open", l |-> j - 1, i |-> id, n |-> NodeName(K, nd), tok |-> tok, stk |-> Stack(K, m.st)])
                 ELSE m
           h == CASE mode = 1 -> [k |-> "inst", i |-> id, res |-> 0]
                  [] mode = 3 -> [k |-> "def", i |-> 0, res |-> 0]
                  [] OTHER -> [k |-> "no", i |-> 0, res |-> 0]
       IN MakeHooks(K, m1, nd, tok, i + 1, Append(hooks, h))
Push(K, m, nd, tok) ==
  LET m1 == IF m.st = <<>> THEN m ELSE Flush(K, m)
      hs == IF m.st = <<>> THEN <<>> ELSE SelectSeq(Last(m.st).hooks, Inst)
      m2 == EmitAll(K, m1, [i \in 1..Len(hs) |-> [e |-> "new", i |-> hs[i].i, n |-> NodeName(K, nd), tok |-> tok]])
      h == MakeHooks(K, m2, nd, tok, 1, <<>>)
  IN [h.m EXCEPT !.st = Append(@, [nd |-> nd, state |-> K.tab.nodes[nd + 1].s, hooks |-> h.hooks, sides |-> <<>>])]

InstRes(i) == IF i % 4 = 3 THEN 0 ELSE i
HookRes(h) == IF h.k = "inst" THEN InstRes(h.i) ELSE IF h.k = "def" THEN h.res ELSE 0
RECURSIVE PopAll(_, _, _)
PopAll(K, m, sides) ==
  IF Failed(m) \/ m.st = <<>> THEN m
  ELSE LET n == Last(m.st) IN
       IF n.state # Final THEN SetTop(m, [n EXCEPT !.sides = sides])
       ELSE LET m1 == IF Len(m.st) = 1 THEN EmitAll(K, m, TokEvents(n.hooks, sides)) ELSE m
                hs == SelectSeq(n.hooks, Inst)
                m2 == EmitAll(K, m1, [i \in 1..Len(hs) |-> [e |-> "end", i |-> hs[i].i]])
                m3 == IF Watch(K) /\ n.hooks[1].k # "no" THEN [m2 EXCEPT !.last = HookRes(n.hooks[1])] ELSE m2
                m4 == [m3 EXCEPT !.st = Front(@)]
            IN IF Failed(m2) \/ m4.st = <<>> THEN m4
               ELSE LET p == Last(m4.st)
                        kids == FlattenSeq([i \in 1..Len(p.hooks) |->
                          IF Inst(p.hooks[i]) THEN <<[e |-> "kid", i |-> p.hooks[i].i, n |-> NodeName(K, n.nd), res |-> HookRes(n.hooks[i])]>> ELSE <<>>])
                        p1 == [p EXCEPT !.hooks = [i \in 1..Len(p.hooks) |->
                                 IF p.hooks[i].k = "def" THEN [p.hooks[i] EXCEPT !.res = HookRes(n.hooks[i])] ELSE p.hooks[i]]]
                    IN PopAll(K, EmitAll(K, SetTop(m4, p1), kids), sides)

ApplyRule(K, m, tok, rule) ==
  LET n == Last(m.st)
      used == Consumes(tok, rule)
      m1 == IF rule[2] = Repeat THEN m ELSE SetTop(m, [n EXCEPT !.state = rule[2]])
      m2 == IF rule[3] # Same THEN Push(K, m1, rule[3], tok)
            ELSE IF ~ used \/ tok = NilTok THEN m1
            ELSE IF IsSide(K, tok) THEN SetTop(m1, [Last(m1.st) EXCEPT !.sides = Append(@, tok)])
            ELSE EmitAll(K, Flush(K, m1), TokEvents(n.hooks, <<tok>>))
      m3 == IF Failed(m2) \/ Last(m2.st).state # Final THEN m2
            ELSE PopAll(K, SetTop(m2, [Last(m2.st) EXCEPT !.sides = <<>>]), Last(m2.st).sides)
  IN [m3 EXCEPT !.used = used]

(* ---- errors ---- *)
Expected(K, s) ==
  LET st == St(K, s)
      one == {r[1] : r \in {x \in Range(st.rules) : x[1] >= 0}}
      all == one \cup {r.key : r \in Range(st.multi)}
  IN IF all = {} THEN "end of input"
     ELSE LET d == TokDef(K, MinOf(all)) IN IF d.lit = 1 THEN d.n ELSE "$" \o d.n
SyntaxErr(K, tok, s) == ErrAt(K.ins, IF tok.t = EoiT THEN 201 ELSE 202, tok.s, tok.p)
RemainingErr == 306

(* ---- giving tokens back ---- *)
RECURSIVE GiveBack(_, _, _)
GiveBack(K, q, toks) ==
  IF toks = <<>> THEN q
  ELSE LET t == Last(toks)
           lens == Lens(K.ins)
       IN IF t.s = 0 THEN GiveBack(K, q, Front(toks))
          ELSE LET q1 == IF Cur(q)[1] = t.s THEN q ELSE DoPrepend(lens, q, t.s)
               IN GiveBack(K, DoSeek(lens, q1, t.p), Front(toks))

(* ---- steps of a parse ---- *)
Open(K, q) ==
  LET c == Cur(q)
  IN Push(K, Start0(K, q), 0, [t |-> AnyT, n |-> "", x |-> <<>>, s |-> c[1], p |-> c[2]])
New(m) == [m EXCEPT !.ev = <<>>]
FetchStep(K, m) ==
  IF m.can THEN Fail(New(m), CtxErr)
  ELSE LET u == NextTok(K, New(m), Range(St(K, Last(m.st).state).types))
       IN [u.m EXCEPT !.tok = u.tok, !.used = FALSE, !.ph = "rule"]
AfterRule(m) ==
  IF Failed(m) THEN m
  ELSE IF m.st = <<>> THEN [m EXCEPT !.ph = "end"]
  ELSE IF m.used THEN [m EXCEPT !.ph = "fetch"] ELSE m
RuleStep(K, m0) ==
  LET m == New(m0)
      s == Last(m.st).state
      rules == FindRules(K, m.tok, s)
  IN IF m.ap # <<>> THEN AfterRule(ApplyRule(K, [m EXCEPT !.ap = Tail(@)], m.tok, Head(m.ap)))
     ELSE IF rules = <<>> THEN
       IF m.tok = NilTok THEN LET u == NextTok(K, m, ALL) IN [u.m EXCEPT !.tok = u.tok]
       ELSE Fail(m, SyntaxErr(K, m.tok, s))
     ELSE IF Len(rules) = 1 THEN AfterRule(ApplyRule(K, m, m.tok, rules[1]))
     ELSE LET r == Resolve(K, m, m.tok)
          IN IF Failed(r.m) THEN r.m
             ELSE [r.m EXCEPT !.tk = Tail(r.toks) \o @, !.ap = r.rules]
EndStep(K, m0) ==
  LET m == New(m0)
      rest == IF m.used \/ m.tok = NilTok THEN <<>> ELSE <<m.tok>>
  IN IF K.full = 0 THEN [m EXCEPT !.q = GiveBack(K, @, rest \o m.tk), !.ph = "done"]
     ELSE IF m.tok.t = EoiT THEN [m EXCEPT !.ph = "done"]
     ELSE [m EXCEPT !.tk = rest \o @, !.ph = "rest"]
RestStep(K, m0) ==
  LET u == NextTok(K, New(m0), ALL)
  IN IF Failed(u.m) \/ u.tok = NilTok \/ IsSide(K, u.tok) THEN u.m
     ELSE IF u.tok.t = EoiT THEN [u.m EXCEPT !.ph = "done"]
     ELSE Fail(u.m, ErrAt(K.ins, RemainingErr, u.tok.s, u.tok.p))
Step(K, m) ==
  CASE m.ph = "fetch" -> FetchStep(K, m)
    [] m.ph = "rule" -> RuleStep(K, m)
    [] m.ph = "end" -> EndStep(K, m)
    [] m.ph = "rest" -> RestStep(K, m)
Over(m) == m.ph = "done" \/ Failed(m)
=============================================================================
