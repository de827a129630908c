------------------------------- MODULE Setup -------------------------------
(* Setting up a parser and a parse: names of token types, hook layers and    *)
(* their templates, keys of hooks.                                           *)
(* g: [toks |-> sequence of [n, lit, side, err], nodes |-> sequence of names,*)
(*     layers |-> sequence of [n, cmds]]                                     *)
EXTENDS Util
Eof == -2
Eoi == -3
Specials == [n \in {"-eof-", "-eoi-"} |-> IF n = "-eof-" THEN Eof ELSE Eoi]
UnknownTokenType == 302
UnknownNode == 303
Registered == 304
UnknownLayer == 305

(* ---- token types --------------------------------------------------------- *)
(* the usable types: those of tokens, neither literals nor errors            *)
Usable(g) == {i \in 1..Len(g.toks) : g.toks[i].lit = 0 /\ g.toks[i].err = 0}
Named(g, n) == {i \in Usable(g) : g.toks[i].n = n}
Known(g, n) == n \in DOMAIN Specials \/ Named(g, n) # {}
TypeOf(g, n) == IF n \in DOMAIN Specials THEN Specials[n] ELSE (CHOOSE i \in Named(g, n) : TRUE) - 1
(* names the documentation says nothing about: the fallback key and error types *)
Unclear(g, n) == n = "" \/ \E i \in 1..Len(g.toks) : g.toks[i].lit = 0 /\ g.toks[i].err = 1 /\ g.toks[i].n = n
TypeAnswer(g, n, t, ok) == IF Known(g, n) THEN ok = 1 /\ t = TypeOf(g, n) ELSE Unclear(g, n) \/ ok = 0

IsType(g, t) == t >= 0 /\ t < Len(g.toks)
ValidAnswer(g, t, ok) ==
  IF t \in {Eof, Eoi} THEN ok = 1
  ELSE IF ~ IsType(g, t) THEN ok = 0
  ELSE (t + 1 \in Usable(g)) => ok = 1                    \* literals and error types: either way
SpecialAnswer(t, ok) == ok = (IF t \in {Eof, Eoi} THEN 1 ELSE 0)
SideAnswer(g, t, ok) == ok = (IF IsType(g, t) THEN g.toks[t + 1].side ELSE 0)
(* an artificial token has a type and a text, but no place *)
MadeAnswer(g, n, b, r) ==
  IF Known(g, n) THEN /\ r.code = 0 /\ r.nil = 0 /\ r.t = TypeOf(g, n) /\ r.tn = n /\ r.x = b
                      /\ r.src = "" /\ r.line = 0 /\ r.col = 0
  ELSE Unclear(g, n) \/ (r.code = UnknownTokenType /\ r.nil = 1)

(* ---- templates of layers ---------------------------------------------------- *)
(* known: name -> template of the registered ones; a second registration is refused *)
Register(known, r) == IF r.n \in DOMAIN known THEN [known |-> known, code |-> Registered]
                      ELSE [known |-> known @@ (r.n :> r), code |-> 0]
Template(known, opts, n) ==
  IF n \in DOMAIN opts THEN <<opts[n]>> ELSE IF n \in DOMAIN known THEN <<known[n]>> ELSE <<>>
(* the layers are set up in the order of the description till one cannot be *)
LayerError(known, opts, l) ==
  LET t == Template(known, opts, l.n)
  IN IF t = <<>> THEN UnknownLayer ELSE IF t[1].fail = 1 THEN 900 + t[1].id ELSE 0
SetupCall(g, known, opts, l) ==
  LET t == Template(known, opts, l.n)[1]
  IN [id |-> t.id, cmds |-> l.cmds]

(* ---- keys of hooks ------------------------------------------------------------ *)
KeyErrors(g, h) ==
  (IF \E k \in Range(h.toks) : ~ Known(g, k) /\ ~ Unclear(g, k) THEN {UnknownTokenType} ELSE {})
  \cup (IF \E k \in Range(h.nodes) : k # "" /\ k \notin Range(g.nodes) THEN {UnknownNode} ELSE {})
KeyDoubts(g, h) == IF \E k \in Range(h.toks) : k # "" /\ Unclear(g, k) THEN {UnknownTokenType} ELSE {}

(* ---- messages ------------------------------------------------------------------ *)
EndsWith(s, t) == Len(s) > Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
MessageOk(e) ==
  e.code # 0 => /\ e.msg # ""
                /\ (e.src # "" /\ e.line # 0 /\ e.col # 0) =>
                     EndsWith(e.msg, " in " \o e.src \o " at line " \o ToString(e.line) \o " col " \o ToString(e.col))
=============================================================================
