------------------------------ MODULE Lexemes ------------------------------
(* Lexical analysis (property C05).                                          *)
(* types: token types in definition order, [n, re, side, err, ext, grp, ix]; *)
(* ix is the token type number.  ins: texts of sources.  q: source queue.    *)
EXTENDS SourceQueue, Regex
LOCAL INSTANCE LineCol

EofT == -2
EoiT == -3
NilT == -99
ALL == {-100}                               \* any token type is wanted
Has(mask, t) == mask = ALL \/ t \in mask

NilTok == [t |-> NilT, n |-> "", x |-> <<>>, s |-> 0, p |-> 0]
EoiTok == [t |-> EoiT, n |-> "-eoi-", x |-> <<>>, s |-> 0, p |-> 0]
EofTok(s, len) == [t |-> EofT, n |-> "-eof-", x |-> <<>>, s |-> s, p |-> len]

NoErr == [k |-> "none", code |-> 0, line |-> 0, col |-> 0, src |-> ""]
SrcName(s) == IF s = 0 THEN "" ELSE "s" \o ToString(s)
ErrAt(ins, code, s, p) ==
  IF s = 0 THEN [k |-> "llx", code |-> code, line |-> 0, col |-> 0, src |-> ""]
  ELSE LET lc == LineColOf(ins[s], p) IN [k |-> "llx", code |-> code, line |-> lc[1], col |-> lc[2], src |-> SrcName(s)]
WrongChar == 101
BadToken == 102

Lens(ins) == [i \in 1..Len(ins) |-> Len(ins[i])]
InGroup(types, grp) == SelectSeq(types, LAMBDA y : y.re # <<>> /\ y.grp = grp)
MaxGroup(types) == IF types = <<>> THEN 0 ELSE MaxOf({y.grp : y \in Range(types)})
Wanted(ts, mask) == \E y \in Range(ts) : y.err = 0 /\ Has(mask, y.ix)

(* the first defined type that matches at p, <<0, 0>> if there is none *)
RECURSIVE FirstMatch(_, _, _, _)
FirstMatch(ts, txt, p, i) ==
  IF i > Len(ts) THEN <<0, 0>>
  ELSE LET e == MatchEnd(ts[i].re, txt, p) IN IF e >= 0 THEN <<i, e>> ELSE FirstMatch(ts, txt, p, i + 1)

(* What one lexer (token group) does: a token, nothing (nil), or an error.   *)
Cut(ins, types, grp, q, mask) ==
  LET ts == InGroup(types, grp)
      c == Cur(q)
      s == c[1]
      p == c[2]
      res(tok, nq, err) == [tok |-> tok, q |-> nq, err |-> err]
  IN IF q = <<>> THEN res(EoiTok, q, NoErr)
     ELSE IF p >= Len(ins[s]) THEN res(EofTok(s, Len(ins[s])), DoNext(q), NoErr)
     ELSE LET m == FirstMatch(ts, ins[s], p, 1)
          IN IF m[1] = 0 \/ m[2] = p THEN res(NilTok, q, ErrAt(ins, WrongChar, s, p))
             ELSE LET y == ts[m[1]] IN
                  IF y.err = 1 THEN res(NilTok, q, ErrAt(ins, BadToken, s, p))
                  ELSE IF ~ Has(mask, y.ix) THEN res(NilTok, q, NoErr)
                  ELSE res([t |-> y.ix, n |-> y.n, x |-> SubSeq(ins[s], p + 1, m[2]), s |-> s, p |-> p], SetPos(q, m[2]), NoErr)

(* All the lexers in the order of groups; an error counts only when any      *)
(* token would do.                                                           *)
RECURSIVE FetchFrom(_, _, _, _, _, _)
FetchFrom(ins, types, grp, q, mask, err) ==
  IF grp > MaxGroup(types) THEN
    IF mask # ALL THEN [tok |-> NilTok, q |-> q, err |-> NoErr]
    ELSE IF err # NoErr THEN [tok |-> NilTok, q |-> q, err |-> err]
    ELSE Cut(ins, types, 0, q, mask)
  ELSE IF ~ Wanted(InGroup(types, grp), mask) THEN FetchFrom(ins, types, grp + 1, q, mask, err)
  ELSE LET r == Cut(ins, types, grp, q, mask)
       IN IF r.err = NoErr /\ r.tok # NilTok THEN r
          ELSE FetchFrom(ins, types, grp + 1, q, mask, IF err = NoErr THEN r.err ELSE err)
Fetch(ins, types, q, mask) == FetchFrom(ins, types, 0, q, mask, NoErr)
=============================================================================
