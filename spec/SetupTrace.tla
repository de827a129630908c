----------------------------- MODULE SetupTrace -----------------------------
(* Recorded set-ups of real parsers and parses against Setup.tla.            *)
(* A case: g, regs (templates registered, with codes), std (names registered *)
(* by llx), opts, what parser.New did, answers, runs.                        *)
EXTENDS Setup
VARIABLES ci, ph, l, known, v
vars == <<ci, ph, l, known, v>>
C == Cases[ci]
G == C.g
Std == [n \in Range(C.std) |-> [n |-> n, id |-> 0, fail |-> 0, std |-> 1]]
Opts == [n \in {o.n : o \in Range(C.opts)} |-> CHOOSE o \in Range(C.opts) : o.n = n]
Init == ci \in 1..Len(Cases) /\ ph = "reg" /\ l = 0 /\ known = Std /\ v = "run"
Stay == UNCHANGED <<ci, ph, l, known>>
Bad(w) == v' = "bad" /\ Verdict(C.id, "BAD", <<ph, l>>, w) /\ Stay
Ok(w) == v' = "ok" /\ Verdict(C.id, "OK", 0, w) /\ Stay
Go(p, k) == ph' = p /\ l' = k /\ UNCHANGED <<ci, v>>
Live(p) == v = "run" /\ C.crash = 0 /\ ph = p
Crash == v = "run" /\ C.crash = 1 /\ Bad("no crash")

Reg == /\ Live("reg") /\ l < Len(C.regs)
       /\ LET r == Register(known, C.regs[l + 1])
          IN IF C.codes[l + 1] # r.code THEN Bad([code |-> r.code]) ELSE known' = r.known /\ Go("reg", l + 1)
RegEnd == /\ Live("reg") /\ l = Len(C.regs)
          /\ IF C.ok = 0 THEN Ok("description rejected") ELSE UNCHANGED known /\ Go("layer", 0)
(* the calls of Setup are those of the layers of the description; layers of llx itself are not seen *)
IsStd(x) == LET t == Template(known, Opts, x.n) IN t # <<>> /\ t[1].id = 0
Seen == SelectSeq(G.layers, LAMBDA x : ~ IsStd(x))
Wrong == {k \in 1..Len(Seen) : LayerError(known, Opts, Seen[k]) # 0}
FirstWrong == MinOf(Wrong)
WrongCodes == {LayerError(known, Opts, Seen[k]) : k \in Wrong}
CallOk(k) == LET w == SetupCall(G, known, Opts, Seen[k])
                 s == C.setups[k]
             IN s.id = w.id /\ s.cmds = w.cmds /\ TypeAnswer(G, s.ask, s.tt, s.ok)
Layer == /\ Live("layer") /\ l < Len(C.setups)
         /\ IF l + 1 > Len(Seen) \/ (Wrong # {} /\ l + 1 > FirstWrong) THEN Bad("no more layers set up")
            ELSE IF Template(known, Opts, Seen[l + 1].n) = <<>> THEN Bad("an unknown layer")
            ELSE IF ~ CallOk(l + 1) THEN Bad(SetupCall(G, known, Opts, Seen[l + 1]))
            ELSE UNCHANGED known /\ Go("layer", l + 1)
LayerEnd == /\ Live("layer") /\ l = Len(C.setups)
            /\ IF Wrong # {} THEN (IF C.made = 0 /\ C.err.code \in WrongCodes /\ C.nil = 1 /\ MessageOk(C.err) THEN Ok("refused " \o ToString(C.err.code)) ELSE Bad(WrongCodes))
               ELSE IF C.made = 0 THEN Bad("a parser")
               ELSE IF l # Len(Seen) THEN Bad("every layer set up")
               ELSE UNCHANGED known /\ Go("ask", 0)
Ask == /\ Live("ask")
       /\ IF C.same = 0 THEN Bad("tokens of the grammar")
          ELSE IF \E x \in Range(C.types) : ~ TypeAnswer(G, x.n, x.t, x.ok)
               THEN Bad(CHOOSE x \in Range(C.types) : ~ TypeAnswer(G, x.n, x.t, x.ok))
          ELSE IF \E x \in Range(C.valid) : ~ (ValidAnswer(G, x.t, x.valid) /\ SpecialAnswer(x.t, x.special) /\ SideAnswer(G, x.t, x.side))
               THEN Bad(CHOOSE x \in Range(C.valid) : ~ (ValidAnswer(G, x.t, x.valid) /\ SpecialAnswer(x.t, x.special) /\ SideAnswer(G, x.t, x.side)))
          ELSE IF \E x \in Range(C.make) : ~ MadeAnswer(G, x.n, x.b, x)
               THEN Bad(CHOOSE x \in Range(C.make) : ~ MadeAnswer(G, x.n, x.b, x))
          ELSE UNCHANGED known /\ Go("run", 0)
(* each parse initialises each layer once, with its own context, parser and queue *)
Tpls == [k \in 1..Len(Seen) |-> Template(known, Opts, Seen[k].n)[1]]
HookSets == <<C.user>> \o [k \in 1..Len(Tpls) |-> Tpls[k].hooks]
KeysBad == UNION {KeyErrors(G, HookSets[k]) : k \in 1..Len(HookSets)}
KeysMay == UNION {KeyDoubts(G, HookSets[k]) : k \in 1..Len(HookSets)}
R == C.runs[l + 1]
InitsOf(id) == Cardinality({k \in 1..Len(R.inits) : R.inits[k].id = id})
TplsOf(id) == Cardinality({k \in 1..Len(Tpls) : Tpls[k].id = id})
InitsFit(all) == /\ \A x \in Range(R.inits) : x.ctx = l + 1 /\ x.p = 1 /\ x.q = 1 /\ TplsOf(x.id) > 0
                 /\ \A k \in 1..Len(Tpls) : IF all THEN InitsOf(Tpls[k].id) = TplsOf(Tpls[k].id) ELSE InitsOf(Tpls[k].id) <= TplsOf(Tpls[k].id)
(* layers and hooks of a parse see one parse context: its own parser and queue, and the caller's context *)
OneContext == R.pcs <= 1 /\ R.alien = 0
Refused == R.log = <<>> /\ R.pos = 0 /\ R.res = "<nil>" /\ InitsFit(FALSE) /\ OneContext
Run == /\ Live("run") /\ l < Len(C.runs)
       /\ IF KeysBad # {} THEN (IF R.err.code \in KeysBad \cup KeysMay /\ Refused /\ MessageOk(R.err) THEN UNCHANGED known /\ Go("run", l + 1) ELSE Bad(KeysBad))
          ELSE IF R.err.code \in KeysMay /\ Refused THEN UNCHANGED known /\ Go("run", l + 1)
          ELSE IF R.err.code \in {UnknownTokenType, UnknownNode} THEN Bad("known keys")
          ELSE IF ~ InitsFit(TRUE) THEN Bad("every layer initialised once")
          ELSE IF ~ OneContext THEN Bad("one context")
          ELSE IF ~ MessageOk(R.err) THEN Bad("a message with the place")
          (* ParseString is Parse with a queue of one source *)
          ELSE IF l > 0 /\ [R EXCEPT !.pos = 0, !.inits = <<>>] # [C.runs[1] EXCEPT !.pos = 0, !.inits = <<>>] THEN Bad("the same parse")
          ELSE UNCHANGED known /\ Go("run", l + 1)
RunEnd == Live("run") /\ l = Len(C.runs) /\ Ok(IF KeysBad # {} THEN "unknown keys" ELSE "parsed")
Next == Crash \/ Reg \/ RegEnd \/ Layer \/ LayerEnd \/ Ask \/ Run \/ RunEnd
Spec == Init /\ [][Next]_vars
=============================================================================
