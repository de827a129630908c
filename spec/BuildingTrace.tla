---------------------------- MODULE BuildingTrace ----------------------------
(* Trees built by the real node hook against the calls recorded in the same  *)
(* parse, and against the source text.                                       *)
EXTENDS Building, Lexemes
VARIABLES ci, l, b, q, v
vars == <<ci, l, b, q, v>>
C == Cases[ci]
Types == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
Init == ci \in 1..Len(Cases) /\ l = 0 /\ v = "run" /\ b = Nothing /\ q = <<>>
Say(res, at, w) == v' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", at, w) /\ UNCHANGED <<ci, l, b, q>>
Crash == v = "run" /\ C.crash = 1 /\ Say("bad", 0, "no crash")
Skip == v = "run" /\ C.crash = 0 /\ C.ok = 0 /\ Say("ok", 0, "description rejected")
Live == v = "run" /\ C.crash = 0 /\ C.ok = 1
Lost == Live /\ l = 0 /\ (C.errA # C.errB) /\ Say("bad", 0, "both parses end alike")
Fail == Live /\ l = 0 /\ C.errA = C.errB /\ C.errA # "none" /\ Say("ok", 0, "parse failed")
Good == Live /\ C.errA = "none" /\ C.errB = "none"
Call1 == Good /\ l < Len(C.log) /\ b' = Call(b, C.log[l + 1]) /\ l' = l + 1 /\ UNCHANGED <<ci, q, v>>
Whole == FlattenSeq(C.ins)
IsPrefix(a, s) == Len(a) <= Len(s) /\ SubSeq(s, 1, Len(a)) = a
(* after the last token of the root there may be nothing but side tokens *)
RECURSIVE OnlySides(_)
OnlySides(qq) ==
  LET r == Fetch(C.ins, Types, qq, ALL)
  IN IF r.err # NoErr \/ r.tok = NilTok THEN FALSE
     ELSE IF r.tok.t = EoiT THEN TRUE
     ELSE (r.tok.t = EofT \/ Types[r.tok.t + 1].side = 1) /\ OnlySides(r.q)
RECURSIVE QueueAt(_, _)
QueueAt(i, n) == IF i > Len(C.ins) THEN <<>>
                 ELSE IF n >= Len(C.ins[i]) THEN QueueAt(i + 1, n - Len(C.ins[i]))
                 ELSE <<<<i, n>>>> \o [j \in 1..(Len(C.ins) - i) |-> <<i + j, 0>>]
Done == /\ Good /\ l = Len(C.log)
        /\ IF C.el # 1 \/ C.linked # 1 THEN Say("bad", l, "a tree element")
           ELSE IF C.elems # Linked(b.els) THEN Say("bad", l, Linked(b.els))
           ELSE IF C.qa # C.qb THEN Say("bad", l, "the same place")
           ELSE IF C.sides = 1 /\ C.full = 1 /\ C.plain = 1
                THEN LET t == Texts(C.elems) IN
                     IF ~ IsPrefix(t, Whole) THEN Say("bad", l, "the source text")
                     ELSE IF t = Whole THEN Say("ok", l, "all of the source")
                     ELSE IF OnlySides(QueueAt(1, Len(t))) THEN Say("ok", l, "all but side tokens after the root")
                     ELSE Say("bad", l, "the rest of the source")
           ELSE Say("ok", l, "tree")
Next == Crash \/ Skip \/ Lost \/ Fail \/ Call1 \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
