------------------------------- MODULE LangText -------------------------------
(* The grammar description language: what a text says (properties C17, C18). *)
(*                                                                           *)
(* A text is a sequence of bytes, everything taken from it (names, string    *)
(* contents, patterns) is a sequence of bytes, too.  A description is read   *)
(* statement by statement: Statement takes what is known so far and the      *)
(* text position and gives what is known after the statement.                *)
(*                                                                           *)
(* Known so far (d):                                                         *)
(*   pos, ph    position; "head" before the first node, then "nodes", "end"  *)
(*   syn        first syntax error <<code, position>>, <<>> if none          *)
(*   bad        codes of static rules broken for sure, seen when reading     *)
(*   may        codes that may be reported as well                           *)
(*   tpls       templates [n, re];  types  token types [n, re], as defined   *)
(*   ment       token types listed in directives [d, n]; grps: [g, n]        *)
(*   lits       listed literals [d, b];  layers [t, c: [c, a]]               *)
(*   ns, nodes  node bodies as in Grammar.tla; nodes [n, b]                  *)
EXTENDS Grammar, Regex
LOCAL INSTANCE LineCol

(* ---------------- error codes ---------------- *)
EUnexpEof == 1   EUnexpTok == 2   EUnkType == 3   EWrongType == 4
ETypeDef == 5    ENodeDef == 6    EPattern == 7   EUnkNode == 8
EUnused == 9     EUnresolved == 10 ERecursion == 11 ETypeNumber == 12
ENoType == 13    EUndefType == 14 EUnkLiteral == 15 ERegroup == 16
EEscape == 17    ERune == 18      ETplDef == 19   EUnkTpl == 20
EUnkDir == 21    EWrongChar == 101 EBadToken == 102

(* ---------------- lexemes ---------------- *)
IsSpace(b) == b \in {9, 10, 12, 13, 32}
IsDigit(b) == b >= 48 /\ b <= 57
IsLower(b) == b >= 97 /\ b <= 122
IsUpper(b) == b >= 65 /\ b <= 90
IsName1(b) == IsLower(b) \/ IsUpper(b) \/ b = 95
IsNameN(b) == IsName1(b) \/ IsDigit(b) \/ b = 45
IsHex(b) == IsDigit(b) \/ (b >= 97 /\ b <= 102) \/ (b >= 65 /\ b <= 70)
Hex(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
DQ == 34  SQ == 39  BSL == 92  NL == 10  SLASH == 47  DOLLAR == 36  EXCL == 33  HASH == 35
Ops == {40, 41, 123, 125, 91, 93, 61, 124, 44, 59, 64}
LParen == 40  RParen == 41  LCurly == 123  RCurly == 125  LSquare == 91  RSquare == 93
Equ == 61  Pipe == 124  Comma == 44  Semi == 59  AtSign == 64

B(t, p) == t[p + 1]
RECURSIVE While(_, _, _)
While(P(_), t, p) == IF p < Len(t) /\ P(B(t, p)) THEN While(P, t, p + 1) ELSE p
(* the position of the byte ending a text with escapes, -1 if there is none *)
RECURSIVE EscEnd(_, _, _)
EscEnd(t, p, stop) ==
  IF p >= Len(t) THEN -1
  ELSE IF B(t, p) = stop THEN p
  ELSE IF B(t, p) # BSL THEN EscEnd(t, p + 1, stop)
  ELSE IF p + 1 >= Len(t) \/ B(t, p + 1) = NL THEN -1
  ELSE EscEnd(t, p + 1 + RuneLen(t, p + 1, Len(t)), stop)

RECURSIVE SkipSpace(_, _)
SkipSpace(t, p) ==
  IF p >= Len(t) THEN p
  ELSE IF IsSpace(B(t, p)) THEN SkipSpace(t, p + 1)
  ELSE IF B(t, p) = HASH THEN SkipSpace(t, While(LAMBDA b : b # NL, t, p))
  ELSE p

(* bytes of a code point *)
Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
RECURSIVE HexNum(_, _, _)
HexNum(t, p, e) == IF p >= e THEN 0 ELSE HexNum(t, p, e - 1) * 16 + Hex(B(t, e - 1))
GoodRune(r) == r < 55296 \/ (r > 57343 /\ r <= 1114111)
(* contents of a double-quoted string in t[p..e-1] *)
RECURSIVE Unescape(_, _, _)
Unescape(t, p, e) ==
  IF p >= e THEN [b |-> <<>>, c |-> 0]
  ELSE
    LET next(bs, q) == LET r == Unescape(t, q, e) IN [b |-> bs \o r.b, c |-> r.c]
        fail(c) == [b |-> <<>>, c |-> c]
        c1 == B(t, p + 1)
        hex(n) == IF p + 2 + n > e \/ \E q \in (p + 2)..(p + 1 + n) : ~ IsHex(B(t, q)) THEN FALSE ELSE TRUE
    IN IF B(t, p) # BSL THEN next(<<B(t, p)>>, p + 1)
       ELSE CASE c1 \in {BSL, DQ} -> next(<<c1>>, p + 2)
              [] c1 = 110 -> next(<<10>>, p + 2)
              [] c1 = 114 -> next(<<13>>, p + 2)
              [] c1 = 116 -> next(<<9>>, p + 2)
              [] c1 = 120 -> IF ~ hex(2) THEN fail(EEscape) ELSE next(<<HexNum(t, p + 2, p + 4)>>, p + 4)
              [] c1 = 117 -> IF ~ hex(4) THEN fail(EEscape)
                             ELSE LET r == HexNum(t, p + 2, p + 6) IN IF GoodRune(r) THEN next(Utf8(r), p + 6) ELSE fail(ERune)
              [] c1 = 85 -> IF ~ hex(8) THEN fail(EEscape)
                            ELSE IF B(t, p + 2) # 48 \/ B(t, p + 3) # 48 THEN fail(ERune)
                            ELSE LET r == HexNum(t, p + 4, p + 10) IN IF GoodRune(r) THEN next(Utf8(r), p + 10) ELSE fail(ERune)
              [] OTHER -> fail(EEscape)

(* The lexeme at p (no space there): kind, contents, position, end, code. *)
Lexeme(t, p) ==
  LET tok(k, b, e) == [k |-> k, b |-> b, p |-> p, e |-> e, c |-> 0]
      bad(c) == [k |-> "bad", b |-> <<>>, p |-> p, e |-> p, c |-> c]
      sub(i, j) == SubSeq(t, i + 1, j)
      nameEnd(q) == IF q < Len(t) /\ IsName1(B(t, q)) THEN While(IsNameN, t, q) ELSE q
  IN IF p >= Len(t) THEN [k |-> "eof", b |-> <<>>, p |-> p, e |-> p, c |-> 0]
     ELSE
       LET b == B(t, p)
       IN CASE b = DQ -> LET e == EscEnd(t, p + 1, DQ)
                             u == Unescape(t, p + 1, e)
                         IN IF e < 0 THEN bad(EBadToken) ELSE IF u.c # 0 THEN bad(u.c) ELSE tok("str", u.b, e + 1)
            [] b = SQ -> LET e == While(LAMBDA x : x \notin {SQ, NL}, t, p + 1)
                         IN IF e >= Len(t) \/ B(t, e) = NL THEN bad(EBadToken) ELSE tok("str", sub(p + 1, e), e + 1)
            [] IsName1(b) -> LET e == nameEnd(p) IN tok("name", sub(p, e), e)
            [] b = EXCL -> LET e == While(IsLower, t, p + 1) IN IF e = p + 1 THEN bad(EBadToken) ELSE tok("dir", sub(p + 1, e), e)
            [] b = DOLLAR -> LET two == p + 1 < Len(t) /\ B(t, p + 1) = DOLLAR
                                 e2 == nameEnd(p + 2)
                                 e1 == nameEnd(p + 1)
                             IN IF two /\ e2 > p + 2 THEN tok("tpl", sub(p + 2, e2), e2) ELSE tok("tok", sub(p + 1, e1), e1)
            [] b = SLASH -> LET e == EscEnd(t, p + 1, SLASH) IN IF e <= p + 1 THEN bad(EBadToken) ELSE tok("re", sub(p + 1, e), e + 1)
            [] b \in Ops -> tok("op", <<b>>, p + 1)
            [] OTHER -> bad(EWrongChar)

(* lexemes of one statement: up to the first semicolon, error or the end *)
RECURSIVE Lexemes(_, _, _)
Lexemes(t, p, out) ==
  LET x == Lexeme(t, SkipSpace(t, p))
      o == Append(out, x)
  IN IF x.k \in {"eof", "bad"} \/ (x.k = "op" /\ x.b = <<Semi>>) THEN o ELSE Lexemes(t, x.e, o)

(* ---------------- syntax ---------------- *)
SynAt(x) == IF x.k = "bad" THEN <<x.c, x.p>> ELSE IF x.k = "eof" THEN <<EUnexpEof, x.p>> ELSE <<EUnexpTok, x.p>>
IsOp(x, o) == x.k = "op" /\ x.b = <<o>>

(* node bodies; r = [p: next lexeme, i: item, ns, err] *)
RECURSIVE PSeq(_, _, _, _)
RECURSIVE PAlt(_, _, _, _)
RECURSIVE PVariant(_, _, _)
Leaf3(ts, p, ns, k, s) == [p |-> p + 1, i |-> Len(ns) + 1, ns |-> Append(ns, [k |-> k, s |-> s, a |-> <<>>]), err |-> <<>>]
Wrap(r, k) == [r EXCEPT !.i = Len(r.ns) + 1, !.ns = Append(@, [k |-> k, s |-> <<>>, a |-> <<r.i>>])]
Join(r, k, is) == IF Len(is) = 1 THEN r ELSE [r EXCEPT !.i = Len(r.ns) + 1, !.ns = Append(@, [k |-> k, s |-> <<>>, a |-> is])]
Fail(p, ns, err) == [p |-> p, i |-> 0, ns |-> ns, err |-> err]
PVariant(ts, p, ns) ==
  LET x == ts[p]
      in == PSeq(ts, p + 1, ns, <<>>)
      closed(o, k) == IF in.err # <<>> THEN in
                      ELSE IF ~ IsOp(ts[in.p], o) THEN Fail(in.p, in.ns, SynAt(ts[in.p]))
                      ELSE LET r == [in EXCEPT !.p = @ + 1] IN IF k = "" THEN r ELSE Wrap(r, k)
  IN CASE x.k = "name" -> Leaf3(ts, p, ns, "node", x.b)
       [] x.k = "tok" /\ x.b = <<>> -> [p |-> p + 1, i |-> Len(ns) + 1, ns |-> Append(ns, [k |-> "eoi", s |-> <<>>, a |-> <<>>]), err |-> <<>>]
       [] x.k = "tok" /\ x.b # <<>> -> Leaf3(ts, p, ns, "type", x.b)
       [] x.k = "str" -> Leaf3(ts, p, ns, "lit", x.b)
       [] IsOp(x, LParen) -> closed(RParen, "")
       [] IsOp(x, LSquare) -> closed(RSquare, "opt")
       [] IsOp(x, LCurly) -> closed(RCurly, "rep")
       [] OTHER -> Fail(p, ns, SynAt(x))
PAlt(ts, p, ns, is) ==
  LET r == PVariant(ts, p, ns)
      js == Append(is, r.i)
  IN IF r.err # <<>> THEN r
     ELSE IF IsOp(ts[r.p], Pipe) THEN PAlt(ts, r.p + 1, r.ns, js)
     ELSE Join(r, "alt", js)
PSeq(ts, p, ns, is) ==
  LET r == PAlt(ts, p, ns, <<>>)
      js == Append(is, r.i)
  IN IF r.err # <<>> THEN r
     ELSE IF IsOp(ts[r.p], Comma) THEN PSeq(ts, r.p + 1, r.ns, js)
     ELSE Join(r, "seq", js)

(* layer commands *)
RECURSIVE PArgs(_, _, _)
PArgs(ts, p, out) ==                           \* p: an argument is expected
  IF ts[p].k \notin {"str", "name"} THEN [p |-> p, a |-> out, err |-> SynAt(ts[p])]
  ELSE IF IsOp(ts[p + 1], Comma) THEN PArgs(ts, p + 2, Append(out, ts[p].b))
  ELSE IF IsOp(ts[p + 1], RParen) THEN [p |-> p + 2, a |-> Append(out, ts[p].b), err |-> <<>>]
  ELSE [p |-> p + 1, a |-> out, err |-> SynAt(ts[p + 1])]
RECURSIVE PCommands(_, _, _)
PCommands(ts, p, out) ==
  IF IsOp(ts[p], Semi) THEN [p |-> p, c |-> out, err |-> <<>>]
  ELSE IF ts[p].k # "name" THEN [p |-> p, c |-> out, err |-> SynAt(ts[p])]
  ELSE IF ~ IsOp(ts[p + 1], LParen) THEN [p |-> p + 1, c |-> out, err |-> SynAt(ts[p + 1])]
  ELSE IF IsOp(ts[p + 2], RParen) THEN PCommands(ts, p + 3, Append(out, [c |-> ts[p].b, a |-> <<>>]))
  ELSE LET r == PArgs(ts, p + 2, <<>>)
       IN IF r.err # <<>> THEN [p |-> r.p, c |-> out, err |-> r.err]
          ELSE PCommands(ts, r.p, Append(out, [c |-> ts[p].b, a |-> r.a]))

(* the lexemes from p on, as long as they are of the given kinds *)
RECURSIVE Run(_, _, _)
Run(ts, p, ks) == IF ts[p].k \in ks THEN <<ts[p]>> \o Run(ts, p + 1, ks) ELSE <<>>

(* ---------------- patterns ---------------- *)
(* pats: what is known about patterns, [t: text, st: "ok" or "bad", re]; re  *)
(* is the syntax array (Regex.tla), <<>> if it is not given.                 *)
PatOf(pats, re) == LET is == SelectIdx(pats, LAMBDA x : x.t = re) IN IF is = {} THEN [st |-> "unknown", re |-> <<>>] ELSE pats[MinOf(is)]
TplRe(d, n) == LET is == SelectIdx(d.tpls, LAMBDA x : x.n = n) IN d.tpls[MinOf(is)].re
HasTpl(d, n) == \E x \in Range(d.tpls) : x.n = n

DName == [side |-> <<115, 105, 100, 101>>, caseless |-> <<99, 97, 115, 101, 108, 101, 115, 115>>,
          error |-> <<101, 114, 114, 111, 114>>, extern |-> <<101, 120, 116, 101, 114, 110>>,
          group |-> <<103, 114, 111, 117, 112>>, literal |-> <<108, 105, 116, 101, 114, 97, 108>>,
          reserved |-> <<114, 101, 115, 101, 114, 118, 101, 100>>]
DirOf(b) == LET s == {k \in DOMAIN DName : DName[k] = b} IN IF s = {} THEN "" ELSE CHOOSE k \in s : TRUE

(* ---------------- statements ---------------- *)
New == [pos |-> 0, ph |-> "head", syn |-> <<>>, bad |-> {}, may |-> {}, tpls |-> <<>>, types |-> <<>>, ment |-> <<>>, grps |-> <<>>,
        gno |-> 0, lits |-> <<>>, layers |-> <<>>, ns |-> <<>>, nodes |-> <<>>, loose |-> FALSE]

Listed(d, dir) == {x.n : x \in {y \in Range(d.ment) : y.d = dir}}
Defined(d) == {x.n : x \in Range(d.types)}
Mentioned(d) == {x.n : x \in Range(d.ment)} \cup {x.n : x \in Range(d.grps)}
Ext(d) == Listed(d, "extern")
Wanted(d) == {x.b : x \in {y \in Range(d.lits) : y.d = "literal"}}
Rsv(d) == {x.b : x \in {y \in Range(d.lits) : y.d = "reserved"}}
TypeCount(d) == Len(d.types) + Cardinality(Mentioned(d) \ Defined(d))

(* rules seen when the first node is reached *)
HeadDone(d) ==
  [d EXCEPT !.ph = "nodes",
            !.bad = @ \cup (IF TypeCount(d) > 63 THEN {ETypeNumber} ELSE {})
                      \cup (IF \E n \in Mentioned(d) : n \notin Defined(d) \cup Ext(d) THEN {EUndefType} ELSE {}),
            !.may = @ \cup (IF TypeCount(d) = 63 THEN {ETypeNumber} ELSE {})]

RegexpDef(d, pats, ts, isTpl) ==
  LET name == ts[1].b
      parts == IF IsOp(ts[2], Equ) THEN Run(ts, 3, {"re", "name"}) ELSE <<>>
      stop == IF ~ IsOp(ts[2], Equ) THEN ts[2] ELSE ts[3 + Len(parts)]
      syn == IF parts # <<>> /\ IsOp(stop, Semi) THEN <<>> ELSE SynAt(stop)
      noTpl == \E x \in Range(parts) : x.k = "name" /\ ~ HasTpl(d, x.b)
      re == IF noTpl THEN <<>> ELSE FlattenSeq([i \in 1..Len(parts) |-> IF parts[i].k = "re" THEN parts[i].b ELSE TplRe(d, parts[i].b)])
      pat == PatOf(pats, re)
      judged == parts # <<>> /\ ~ noTpl
      again == IF isTpl THEN HasTpl(d, name) ELSE name = <<>> \/ name \in Defined(d)
      d1 == [d EXCEPT !.syn = syn,
                      !.bad = @ \cup (IF again THEN {IF isTpl THEN ETplDef ELSE ETypeDef} ELSE {})
                                \cup (IF noTpl THEN {EUnkTpl} ELSE {})
                                \cup (IF judged /\ pat.st = "bad" THEN {EPattern} ELSE {}),
                      !.may = @ \cup (IF judged /\ pat.st = "unknown" THEN {EPattern} ELSE {}),
                      !.loose = @ \/ (judged /\ pat.st = "unknown")]
  IN IF again \/ syn # <<>> THEN d1
     ELSE IF isTpl THEN [d1 EXCEPT !.tpls = Append(@, [n |-> name, re |-> re])]
     ELSE [d1 EXCEPT !.types = Append(@, [n |-> name, re |-> re])]

Directive(d, ts) ==
  LET dir == DirOf(ts[1].b)
      kinds == CASE dir = "reserved" -> {"str"} [] dir = "literal" -> {"str", "tok"} [] OTHER -> {"tok"}
      args == Run(ts, 2, kinds)
      stop == ts[2 + Len(args)]
      toks == SelectSeq(args, LAMBDA x : x.k = "tok")
      strs == SelectSeq(args, LAMBDA x : x.k = "str")
      d1 == [d EXCEPT !.ment = @ \o [i \in 1..Len(toks) |-> [d |-> dir, n |-> toks[i].b]],
                      !.lits = @ \o [i \in 1..Len(strs) |-> [d |-> dir, b |-> strs[i].b]]]
      old == {x.n : x \in Range(d.grps)}
  IN IF dir = "" THEN [d EXCEPT !.bad = @ \cup {EUnkDir}, !.ph = "end"]
     ELSE IF ~ IsOp(stop, Semi) THEN [d EXCEPT !.syn = SynAt(stop)]
     ELSE IF dir = "extern" /\ \E x \in Range(toks) : x.b = <<>> THEN [d1 EXCEPT !.bad = @ \cup {ETypeDef, EUndefType}]
     ELSE IF dir # "group" THEN d1
     ELSE [d1 EXCEPT !.gno = @ + 1,
                     !.grps = @ \o [i \in 1..Len(toks) |-> [g |-> d.gno + 1, n |-> toks[i].b]],
                     !.bad = @ \cup (IF \E i \in 1..Len(toks) : toks[i].b \in old \/ \E j \in 1..(i - 1) : toks[i].b = toks[j].b
                                     THEN {ERegroup} ELSE {})]

LayerDef(d, ts) ==
  LET r == PCommands(ts, 3, <<>>)
  IN IF ts[2].k # "name" THEN [d EXCEPT !.syn = SynAt(ts[2])]
     ELSE IF r.err # <<>> THEN [d EXCEPT !.syn = r.err]
     ELSE [d EXCEPT !.layers = Append(@, [t |-> ts[2].b, c |-> r.c])]

(* rules seen when reading a node body, even an unfinished one *)
LeafCodes(d, leaves) ==
  LET ty == {x.s : x \in {y \in leaves : y.k = "type"}}
      li == {x.s : x \in {y \in leaves : y.k = "lit"}}
      known == Defined(d) \cup Ext(d)
      w == Wanted(d)
  IN [bad |-> (IF \E n \in ty : n \notin known THEN {EUnkType} ELSE {})
              \cup (IF \E n \in ty : n \in Listed(d, "side") \cup Listed(d, "error") THEN {EWrongType} ELSE {})
              \cup (IF w # {} /\ \E b \in li : b \notin w \cup Rsv(d) THEN {EUnkLiteral} ELSE {}),
      may |-> IF w # {} /\ \E b \in li : b \notin w THEN {EUnkLiteral} ELSE {}]
NodeDef(d, ts) ==
  LET name == ts[1].b
      r == IF IsOp(ts[2], Equ) THEN PSeq(ts, 3, d.ns, <<>>) ELSE Fail(2, d.ns, SynAt(ts[2]))
      syn == IF r.err # <<>> THEN r.err ELSE IF IsOp(ts[r.p], Semi) THEN <<>> ELSE SynAt(ts[r.p])
      again == \E x \in Range(d.nodes) : x.n = name
      lc == LeafCodes(d, {r.ns[i] : i \in (Len(d.ns) + 1)..Len(r.ns)})
      d1 == [d EXCEPT !.syn = syn, !.ns = r.ns, !.may = @ \cup lc.may,
                      !.bad = @ \cup lc.bad \cup (IF again THEN {ENodeDef} ELSE {})]
  IN IF syn # <<>> \/ again THEN d1 ELSE [d1 EXCEPT !.nodes = Append(@, [n |-> name, b |-> r.i])]

Statement(d0, pats, t) ==
  LET ts == Lexemes(t, d0.pos, <<>>)
      x == ts[1]
      d == IF d0.ph = "head" /\ x.k = "name" THEN HeadDone(d0) ELSE d0
      r == CASE x.k = "name" -> NodeDef(d, ts)
             [] IsOp(x, AtSign) -> LayerDef(d, ts)
             [] x.k = "dir" /\ d.ph = "head" -> Directive(d, ts)
             [] x.k = "tpl" /\ d.ph = "head" -> RegexpDef(d, pats, ts, TRUE)
             [] x.k = "tok" /\ d.ph = "head" -> RegexpDef(d, pats, ts, FALSE)
             [] x.k = "eof" /\ d.ph = "nodes" -> [d EXCEPT !.ph = "end"]
             [] OTHER -> [d EXCEPT !.syn = SynAt(x)]
  IN [r EXCEPT !.pos = Last(ts).e, !.ph = IF r.syn # <<>> THEN "end" ELSE @]

(* ---------------- the whole description ---------------- *)
RECURSIVE RankIn(_, _)
RankIn(S, g) == Cardinality({x \in S : x < g}) + 1
GroupOf(d, n) ==                               \* groups numbered without gaps, 0: the default one
  LET mine == {x.g : x \in {y \in Range(d.grps) : y.n = n}}
      used == {x.g : x \in {y \in Range(d.grps) : y.n \in Defined(d)}}
  IN IF mine = {} THEN 0 ELSE RankIn(used, MinOf(mine))
B2I(x) == IF x THEN 1 ELSE 0
TypeRec(d, pats, n, re) ==
  [n |-> n, re |-> PatOf(pats, re).re, side |-> B2I(n \in Listed(d, "side")), err |-> B2I(n \in Listed(d, "error")),
   ext |-> B2I(n \in Ext(d)), cl |-> B2I(n \in Listed(d, "caseless")), grp |-> GroupOf(d, n),
   nolit |-> B2I(Listed(d, "literal") # {} /\ n \notin Listed(d, "literal"))]
OnlyExt(d) == Ext(d) \ Defined(d)
GramOf(d, pats) ==
  [ns |-> d.ns, nodes |-> d.nodes,
   types |-> [i \in 1..Len(d.types) |-> TypeRec(d, pats, d.types[i].n, d.types[i].re)]]

NodeLits(d) == {x.s : x \in {y \in Range(d.ns) : y.k = "lit"}}
Ascii(b) == \A i \in 1..Len(b) : b[i] < 128
CanBeType(ty, b) == /\ ty.re # <<>> /\ ty.nolit = 0 /\ (ty.cl = 1 => b = UpperB(b)) /\ MatchEnd(ty.re, b, 0) = Len(b)
(* literals: "ok", "none" (no token type can give it), "unclear" *)
LitClass(d, g, b) ==
  IF b = <<>> THEN "none"
  ELSE LET can == {ty \in Range(g.types) : CanBeType(ty, b)}
       IN IF d.loose THEN "unclear"
          ELSE IF \E ty \in can : ty.side = 0 /\ ty.err = 0 THEN (IF Ascii(b) THEN "ok" ELSE "unclear")
          ELSE IF can # {} \/ (~ Ascii(b) /\ \E ty \in Range(g.types) : ty.cl = 1) THEN "unclear"
          ELSE "none"

HasNode(d, n) == \E x \in Range(d.nodes) : x.n = n
UsedIn(g, n) == LET RECURSIVE N(_)
                    N(i) == LET x == g.ns[i] IN IF x.k = "node" THEN {x.s} ELSE IF Leaf(x) THEN {} ELSE UNION {N(j) : j \in Range(x.a)}
                IN N(Body(g, n))
RECURSIVE ReachN(_, _, _)
ReachN(d, g, S) == LET T == S \cup UNION {UsedIn(g, n) : n \in {m \in S : HasNode(d, m)}} IN IF T = S THEN S ELSE ReachN(d, g, T)
(* nested nodes a node can start with; an undefined node starts with nothing *)
Starts(d, g, n) == IF HasNode(d, n) THEN Syms(g.ns, Body(g, n)) ELSE {}
RECURSIVE ReachS(_, _, _)
ReachS(d, g, S) ==
  LET T == S \cup UNION {{x[2] : x \in {y \in Starts(d, g, n) : y[1] = "node"}} : n \in S} IN IF T = S THEN S ELSE ReachS(d, g, T)
HasFirst(d, g, n) == \E m \in ReachS(d, g, {n}) : \E x \in Starts(d, g, m) : x[1] # "node"
(* A node that can start with nothing but the end of input: starting with it *)
(* is harmless, nothing can follow.                                          *)
OnlyEoi(d, g, n) == \A m \in ReachS(d, g, {n}) : \A x \in Starts(d, g, m) : x[1] \in {"node", "eoi"}
(* Left recursion: a node starts, through other nodes perhaps, with itself;  *)
(* starts over nodes of W only.                                              *)
RECURSIVE StartsIn(_, _, _, _)
StartsIn(d, g, W, S) ==
  LET T == S \cup UNION {{x[2] : x \in {y \in Starts(d, g, n) : y[1] = "node" /\ y[2] \in W}} : n \in S} IN IF T = S THEN S ELSE StartsIn(d, g, W, T)
LeftRec(d, g, W) ==
  \E n \in {x.n : x \in Range(d.nodes)} : n \in StartsIn(d, g, W, {x[2] : x \in {y \in Starts(d, g, n) : y[1] = "node" /\ y[2] \in W}})

EndCodes(d, g) ==
  LET names == {x.n : x \in Range(d.nodes)}
      used == UNION {UsedIn(g, n) : n \in names}
      must == NodeLits(d) \cup Rsv(d)
      cls(S) == {LitClass(d, g, b) : b \in S}
  IN [bad |-> (IF used \ names # {} THEN {EUnkNode} ELSE {})
              \cup (IF names \ ReachN(d, g, {d.nodes[1].n}) # {} THEN {EUnused} ELSE {})
              \cup (IF \E n \in names : ~ HasFirst(d, g, n) THEN {EUnresolved} ELSE {})
              \cup (IF LeftRec(d, g, {n \in names : ~ OnlyEoi(d, g, n)}) THEN {ERecursion} ELSE {})
              \cup (IF "none" \in cls(must) THEN {ENoType} ELSE {}),
      may |-> (IF cls(must \cup Wanted(d)) \cap {"none", "unclear"} # {} THEN {ENoType} ELSE {})
              \cup (IF LeftRec(d, g, names) THEN {ERecursion} ELSE {})]

(* what must be reported for the whole text *)
Summary(d, pats) ==
  IF d.syn # <<>> \/ d.nodes = <<>> THEN [bad |-> d.bad, may |-> d.may]
  ELSE LET e == EndCodes(d, GramOf(d, pats)) IN [bad |-> d.bad \cup e.bad, may |-> d.may \cup e.may]
=============================================================================
