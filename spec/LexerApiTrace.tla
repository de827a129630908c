---------------------------- MODULE LexerApiTrace ----------------------------
(* Recorded calls of Next and NextOf. *)
EXTENDS LexerApi, LineCol
VARIABLES ci, l, q, v
vars == <<ci, l, q, v>>
C == Cases[ci]
RECURSIVE Queue(_, _, _)
Queue(lens, i, x) == IF i > Len(lens) THEN x ELSE Queue(lens, i + 1, DoAppend(lens, x, i))
Init == /\ ci \in 1..Len(Cases) /\ l = 0 /\ v = "run"
        /\ q = DoSeek(Lens(C.ins), Queue(Lens(C.ins), 1, <<>>), C.seek)
Say(res, w) == v' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", l, w) /\ UNCHANGED <<ci, l, q>>
Crash == v = "run" /\ C.crash = 1 /\ Say("bad", "no crash")
Mask(op) == IF op.of = 1 THEN Range(op.mask) ELSE ALL
Where(tok) == IF tok.s = 0 THEN <<0, 0, "">> ELSE LineColOf(C.ins[tok.s], tok.p) \o <<SrcName(tok.s)>>
Step == /\ v = "run" /\ C.crash = 0 /\ l < Len(C.ops)
        /\ LET op == C.ops[l + 1]
               o == C.obs[l + 1]
               r == Call(C.lexers[op.l + 1], C.ins, DoSkip(Lens(C.ins), q, op.skip), Mask(op))
               err == [k |-> IF o.err.code = 0 THEN "none" ELSE "llx", code |-> o.err.code, line |-> o.err.line, col |-> o.err.col, src |-> o.err.src]
               \* insignificant lexemes before a failed or unwanted fetch may stay skipped or not
               back == r.tok = NilTok /\ o.q = q
           IN IF o.tok = r.tok /\ err = r.err /\ (o.q = r.q \/ back) /\ <<o.line, o.col, o.name>> = Where(r.tok) /\ o.text = r.tok.x
              THEN q' = o.q /\ l' = l + 1 /\ UNCHANGED <<ci, v>>
              ELSE Say("bad", r)
Done == v = "run" /\ C.crash = 0 /\ l = Len(C.ops) /\ Say("ok", "calls")
Next == Crash \/ Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
