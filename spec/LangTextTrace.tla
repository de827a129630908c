---------------------------- MODULE LangTextTrace ----------------------------
(* Results of langdef.Parse on texts against LangText.tla.                   *)
(* A case: text, pats, ok, err, tab (tokens, nodes and layers with names as  *)
(* bytes), pnew (a parser could be made), deep (compare node tables, too).   *)
EXTENDS LangText, Tables
LOCAL INSTANCE LineCol
VARIABLES ci, ph, d, nd, ss, rs
vars == <<ci, ph, d, nd, ss, rs>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ ph = "read" /\ d = New /\ nd = 0 /\ ss = {} /\ rs = {}
Say(res, w) == ph' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", nd, w)
Read == /\ ph = "read" /\ C.crash = 0 /\ d.ph # "end"
        /\ d' = Statement(d, C.pats, C.text)
        /\ UNCHANGED <<ci, ph, nd, ss, rs>>

Dense(tab, n) ==
  LET used == {x.g : x \in {y \in Range(tab.tokens) : y.re # <<>> /\ y.g # 0}}
  IN IF n = 0 THEN 0 ELSE RankIn(used, n)
TokenRec(tab, x) == [n |-> x.n, side |-> x.side, err |-> x.err, ext |-> x.ext, cl |-> x.cl, nolit |-> x.nolit]
WantRec(x) == [n |-> x.n, side |-> x.side, err |-> x.err, ext |-> x.ext, cl |-> x.cl, nolit |-> x.nolit]
(* what the result says, besides node tables *)
Content ==
  LET tab == C.tab
      g == GramOf(d, C.pats)
      toks == tab.tokens
      n == Len(d.types)
      ext == SelectSeq(toks, LAMBDA x : x.lit = 0 /\ x.re = <<>>)
      defs == SelectSeq(toks, LAMBDA x : x.lit = 0 /\ x.re # <<>>)
      lits == SelectSeq(toks, LAMBDA x : x.lit = 1)
      wantExt == {WantRec(TypeRec(d, C.pats, m, <<>>)) : m \in OnlyExt(d)}
  IN IF toks # defs \o ext \o lits THEN "tokens: defined, external, literals"
     ELSE IF Len(defs) # n THEN "number of token types"
     ELSE IF \E i \in 1..n : TokenRec(tab, defs[i]) # WantRec(g.types[i]) THEN "token type names and flags"
     ELSE IF \E i \in 1..n : defs[i].re # d.types[i].re THEN "patterns"
     ELSE IF \E i \in 1..n : Dense(tab, defs[i].g) # g.types[i].grp THEN "groups"
     ELSE IF {TokenRec(tab, x) : x \in Range(ext)} # wantExt \/ Len(ext) # Cardinality(wantExt) THEN "external types"
     ELSE IF Cardinality({x.n : x \in Range(lits)}) # Len(lits) THEN "literals listed twice"
     ELSE IF ~ (NodeLits(d) \cup Rsv(d) \subseteq {x.n : x \in Range(lits)}) THEN "literals"
     ELSE IF ~ ({x.n : x \in Range(lits)} \subseteq NodeLits(d) \cup Rsv(d) \cup Wanted(d)) THEN "extra literals"
     ELSE IF {x.n : x \in {y \in Range(lits) : y.rsv = 1}} # Rsv(d) \cap {x.n : x \in Range(lits)} THEN "reserved literals"
     ELSE IF tab.layers # d.layers THEN "layers"
     ELSE IF {x.n : x \in Range(tab.nodes)} # {x.n : x \in Range(d.nodes)} \/ Len(tab.nodes) # Len(d.nodes) THEN "nodes"
     ELSE IF tab.nodes[1].n # d.nodes[1].n THEN "root node"
     ELSE IF C.pnew = 0 /\ d.layers = <<>> /\ ~ d.loose THEN "makes a parser"
     ELSE ""

PosOk(p) == <<C.err.line, C.err.col>> = LineColOf(C.text, p)
Judge ==
  /\ ph = "read" /\ (C.crash = 1 \/ d.ph = "end")
  /\ LET s == Summary(d, C.pats)
         code == C.err.code
     IN IF C.crash = 1 THEN Say("bad", "no crash")
        ELSE IF d.syn # <<>> THEN
          IF C.ok = 1 THEN Say("bad", [syntax |-> d.syn])
          ELSE IF code = d.syn[1] THEN (IF code = EUnexpEof \/ PosOk(d.syn[2]) THEN Say("ok", "syntax " \o ToString(code)) ELSE Say("bad", [position |-> LineColOf(C.text, d.syn[2])]))
          ELSE IF code \in s.bad \cup s.may THEN Say("ok", "rule before the syntax error") ELSE Say("bad", [syntax |-> d.syn, codes |-> s.bad \cup s.may])
        ELSE IF s.bad # {} THEN
          IF C.ok = 0 /\ code \in s.bad \cup s.may THEN Say("ok", "rule " \o ToString(code)) ELSE Say("bad", [codes |-> s.bad])
        ELSE IF C.ok = 0 THEN (IF code \in s.may THEN Say("ok", "unclear " \o ToString(code)) ELSE Say("bad", "accepted"))
        ELSE LET c == Content IN IF c # "" THEN Say("bad", c) ELSE Say(IF C.deep = 1 THEN "same" ELSE "ok", IF d.loose THEN "accepted, unknown patterns" ELSE "accepted")
  /\ UNCHANGED <<ci, d, nd, ss, rs>>

(* ---- node tables: product with the derivatives of the node bodies ---- *)
G == GramOf(d, C.pats)
Enter == /\ ph = "same" /\ nd = 0
         /\ \E n \in 1..Len(C.tab.nodes) :
              /\ nd' = n /\ ss' = Closure(C.tab, {C.tab.nodes[n].s}) /\ rs' = {<<Body(G, C.tab.nodes[n].n)>>}
         /\ UNCHANGED <<ci, ph, d>>
Problem ==
  IF (Final \in ss) # (\E r \in rs : NullableR(G.ns, r)) THEN "complete: " \o (IF Final \in ss THEN "no" ELSE "yes")
  ELSE IF SymsT(C.tab, ss) # UNION {SymsR(G.ns, r) : r \in rs} THEN "next symbols"
  ELSE IF ~ d.loose /\ \E s \in Live(ss) : ~ MaskOk(G, C.tab, s) THEN "token types"
  ELSE ""
Look == /\ ph = "same" /\ nd > 0
        /\ LET p == Problem IN IF p = "" THEN ph' = "seen" ELSE Say("bad", p)
        /\ UNCHANGED <<ci, d, nd, ss, rs>>
Step == /\ ph = "seen"
        /\ \E sym \in SymsT(C.tab, ss) : ss' = StepT(C.tab, ss, sym) /\ rs' = DS(G.ns, rs, sym)
        /\ ph' = "same" /\ UNCHANGED <<ci, d, nd>>
Next == Read \/ Judge \/ Enter \/ Look \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
