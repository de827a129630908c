---------------------------- MODULE LayerConfig ----------------------------
(* Which layer definitions are refused, and with which error codes           *)
(* (properties C10, C11, C12).  A definition: [t, c: <<[c, a]>>..].          *)
(* g: types (names of the token types hooks may use), nodes (names).         *)
EXTENDS Util

UnknownLayer == 305
UnknownNode == 303
UnknownCommand == 401
MissingCommand == 402
NumberOfArguments == 403
InvalidArgument == 404
CommandAlreadyUsed == 405
UnknownTokenType == 406

Special == {"-eof-", "-eoi-"}
Of(cmds, name) == SelectSeq(cmds, LAMBDA c : c.c = name)
Args(cmds, name) == FlattenSeq([i \in 1..Len(Of(cmds, name)) |-> Of(cmds, name)[i].a])
Distinct(s) == Cardinality(Range(s)) = Len(s)
If(p, code) == IF p THEN {code} ELSE {}
Strange(cmds, known) == If(\E i \in 1..Len(cmds) : cmds[i].c \notin known, UnknownCommand)

IndentRules(g, cmds) ==
  Strange(cmds, {"space", "on-indent", "on-dedent"})
  \cup If(\E n \in {"space", "on-indent", "on-dedent"} : Of(cmds, n) = <<>>, MissingCommand)
  \cup If(\E n \in {"space", "on-indent", "on-dedent"} : Len(Of(cmds, n)) > 1, CommandAlreadyUsed)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c = "space" /\ cmds[i].a = <<>>, NumberOfArguments)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c \in {"on-indent", "on-dedent"} /\ Len(cmds[i].a) # 1, NumberOfArguments)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c \in {"space", "on-indent", "on-dedent"} /\ \E a \in Range(cmds[i].a) : a \notin Range(g.types), UnknownTokenType)

Froms(a) == [i \in 1..(Len(a) \div 2) |-> a[2 * i - 1]]
ConvertRules(g, cmds) ==
  LET cs == Of(cmds, "convert") IN
  Strange(cmds, {"convert", "input-type", "output-type", "save-position"})
  \cup If(cs = <<>>, MissingCommand)
  \cup If(\E n \in {"input-type", "output-type"} : Len(Of(cmds, n)) > 1, CommandAlreadyUsed)
  \cup If(\E c \in Range(cs) : c.a = <<>> \/ Len(c.a) % 2 = 1, NumberOfArguments)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c \in {"input-type", "output-type"} /\ Len(cmds[i].a) # 1, NumberOfArguments)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c = "save-position" /\ cmds[i].a # <<>>, NumberOfArguments)
  \cup If(~ Distinct(FlattenSeq([i \in 1..Len(cs) |-> Froms(cs[i].a)])), InvalidArgument)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c \in {"input-type", "output-type"} /\ \E a \in Range(cmds[i].a) : a \notin Range(g.types) \cup Special, UnknownTokenType)

RestrictRules(g, cmds) ==
  Strange(cmds, {"node", "allow-in", "forbid-in"})
  \cup If(Of(cmds, "node") = <<>> \/ Of(cmds, "forbid-in") = <<>>, MissingCommand)
  \cup If(\E i \in 1..Len(cmds) : cmds[i].c \in {"node", "allow-in", "forbid-in"} /\ cmds[i].a = <<>>, NumberOfArguments)
  \cup If(~ Distinct(Args(cmds, "node")) \/ ~ Distinct(Args(cmds, "allow-in") \o Args(cmds, "forbid-in")), InvalidArgument)

Rules(g, l) ==
  CASE l.t = "indent" -> IndentRules(g, l.c)
    [] l.t = "convert" -> ConvertRules(g, l.c)
    [] l.t = "restrict" -> RestrictRules(g, l.c)
    [] OTHER -> {UnknownLayer}
(* found when a parser is made *)
AtNew(g, layers) == UNION {Rules(g, layers[i]) : i \in 1..Len(layers)}
(* found when a parse starts *)
AtParse(g, layers) ==
  If(\E l \in Range(layers) : l.t = "restrict" /\ Range(Args(l.c, "node")) \ Range(g.nodes) # {}, UnknownNode)
=============================================================================
