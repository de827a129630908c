------------------------------- MODULE Regex -------------------------------
(* Leftmost-first (Perl/RE2) matching of regular expressions given as syntax *)
(* arrays.  r[i] = [k |-> kind, s |-> bytes, a |-> operands]:                *)
(*   set  one byte of s          nset  one rune whose first byte is not in s *)
(*   cat, alt, star, plus, opt (greedy), lstar, lopt (lazy), eps             *)
EXTENDS Util
LOCAL INSTANCE LineCol

(* All the ends of matches of r[i] at 0-based position p, preferred first;   *)
(* an end reached again in a less preferred way is not repeated.             *)
RECURSIVE Uniq(_, _)
Uniq(s, out) == IF s = <<>> THEN out ELSE Uniq(Tail(s), IF Head(s) \in Range(out) THEN out ELSE Append(out, Head(s)))
RECURSIVE Ends(_, _, _, _)
RECURSIVE CatEnds(_, _, _, _)
RECURSIVE AltEnds(_, _, _, _)
RECURSIVE EachCat(_, _, _, _)
RECURSIVE StarGo(_, _, _, _, _, _)
RECURSIVE EachStar(_, _, _, _, _, _)

Ends(r, i, t, p) ==
  LET x == r[i] IN
  CASE x.k = "eps" -> <<p>>
    [] x.k = "set" -> IF p < Len(t) /\ t[p + 1] \in Range(x.s) THEN <<p + 1>> ELSE <<>>
    [] x.k = "nset" -> IF p < Len(t) /\ t[p + 1] \notin Range(x.s) THEN <<p + RuneLen(t, p, Len(t))>> ELSE <<>>
    [] x.k = "cat" -> CatEnds(r, x.a, t, p)
    [] x.k = "alt" -> Uniq(AltEnds(r, x.a, t, p), <<>>)
    [] x.k = "opt" -> Uniq(Ends(r, x.a[1], t, p) \o <<p>>, <<>>)
    [] x.k = "lopt" -> Uniq(<<p>> \o Ends(r, x.a[1], t, p), <<>>)
    [] x.k = "star" -> StarGo(r, x.a[1], t, p, TRUE, [out |-> <<>>, seen |-> {}]).out
    [] x.k = "lstar" -> StarGo(r, x.a[1], t, p, FALSE, [out |-> <<>>, seen |-> {}]).out
    [] x.k = "plus" -> EachStar(r, x.a[1], t, Ends(r, x.a[1], t, p), TRUE, [out |-> <<>>, seen |-> {}]).out
AltEnds(r, a, t, p) == IF a = <<>> THEN <<>> ELSE Ends(r, Head(a), t, p) \o AltEnds(r, Tail(a), t, p)
CatEnds(r, a, t, p) == IF a = <<>> THEN <<p>> ELSE Uniq(EachCat(r, Tail(a), t, Ends(r, Head(a), t, p)), <<>>)
EachCat(r, a, t, ps) == IF ps = <<>> THEN <<>> ELSE CatEnds(r, a, t, Head(ps)) \o EachCat(r, a, t, Tail(ps))
(* the positions reachable by repeating, depth first; acc: ends found, positions seen *)
StarGo(r, i, t, p, greedy, acc) ==
  IF p \in acc.seen THEN acc
  ELSE LET es == SelectSeq(Ends(r, i, t, p), LAMBDA e : e > p)
           in == [acc EXCEPT !.seen = @ \cup {p}]
           put(a) == [a EXCEPT !.out = Append(@, p)]
       IN IF greedy THEN put(EachStar(r, i, t, es, greedy, in)) ELSE EachStar(r, i, t, es, greedy, put(in))
EachStar(r, i, t, ps, greedy, acc) ==
  IF ps = <<>> THEN acc ELSE EachStar(r, i, t, Tail(ps), greedy, StarGo(r, i, t, Head(ps), greedy, acc))

(* The end of the preferred match at p, -1 if there is none. *)
MatchEnd(r, t, p) == LET es == Ends(r, 1, t, p) IN IF es = <<>> THEN -1 ELSE es[1]
=============================================================================
