---------------------------- MODULE IndentTrace ----------------------------
(* Tokens seen by the user's token hook behind an indent layer, against      *)
(* Indent.tla.  A case: ins, types, cfg, all (the grammar takes any token),  *)
(* full (option), ok, crash, seen, err [k, code, line, col, src].            *)
EXTENDS Indent
VARIABLES ci, q, raw, adj, v
vars == <<ci, q, raw, adj, v>>
C == Cases[ci]
Types == [i \in 1..Len(C.types) |-> C.types[i] @@ [ix |-> i - 1]]
RECURSIVE Queue(_, _, _)
Queue(lens, i, qq) == IF i > Len(lens) THEN qq ELSE Queue(lens, i + 1, DoAppend(lens, qq, i))
Queue0 == Queue(Lens(C.ins), 1, <<>>)
Init == ci \in 1..Len(Cases) /\ raw = <<>> /\ adj = <<1>> /\ v = "run" /\ q = Queue0
Say(res, at, w) == v' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", at, w) /\ UNCHANGED <<ci, q, raw, adj>>
Crash == v = "run" /\ C.crash = 1 /\ Say("bad", 0, "no crash")
Skip == v = "run" /\ C.crash = 0 /\ C.ok = 0 /\ Say(IF C.must = 1 THEN "bad" ELSE "ok", 0, "description rejected")
Live == v = "run" /\ C.crash = 0 /\ C.ok = 1
Got == Fetch(C.ins, Types, q, ALL)
AtEnd == raw # <<>> /\ Last(raw).t = EoiT
Read == /\ Live /\ ~ AtEnd /\ Got.err = NoErr
        /\ q' = Got.q /\ UNCHANGED <<ci, v>>
        /\ IF Got.tok.t = EofT THEN raw' = raw /\ adj' = [adj EXCEPT ![Len(raw) + 1] = 0]
           ELSE raw' = Append(raw, Got.tok) /\ adj' = Append(adj, 1)
(* all tokens read, or the text breaks *)
Judge ==
  /\ Live /\ (AtEnd \/ Got.err # NoErr)
  /\ LET roles == Roles(Types, C.cfg, raw)
         w == Whole(C.cfg, raw, adj, roles)
         out == Stream(raw, w.marks, 1)
         upto == IF w.err = 0 THEN out ELSE Stream(SubSeq(raw, 1, w.first - 1), w.marks, 1)
         seen == [i \in 1..Len(C.seen) |-> Entry(C.seen[i])]
         bad == ErrAt(C.ins, 407, raw[w.err].s, raw[w.err].p)
         say == IF w.err > 0 THEN bad ELSE Got.err
     IN IF ~ IsPre(seen, upto) THEN
          Say("bad", MinOf({i \in 1..Len(seen) : ~ IsPre(SubSeq(seen, 1, i), upto)}), upto)
        ELSE IF C.err.k = "none" THEN
          IF w.err > 0 /\ C.all = 1 THEN Say("bad", Len(seen), bad)
          ELSE IF (C.full = 1 \/ (C.all = 1 /\ AtEnd)) /\ (~ AtEnd \/ w.err > 0 \/ seen # upto) THEN Say("bad", Len(seen), upto)
          ELSE Say("ok", Len(seen), IF seen # upto THEN "start of the stream" ELSE IF w.marks = <<>> THEN "whole stream without marks" ELSE "whole stream")
        ELSE IF C.all = 0 THEN Say("ok", Len(seen), "parse failed")
        ELSE IF [k \in DOMAIN NoErr |-> C.err[k]] # say THEN Say("bad", Len(seen), say)
        ELSE IF w.err > 0 THEN Say("ok", Len(seen), "wrong indentation reported")
        ELSE Say("ok", Len(seen), "lexical error reported")
Next == Crash \/ Skip \/ Read \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
