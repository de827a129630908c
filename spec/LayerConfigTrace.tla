-------------------------- MODULE LayerConfigTrace --------------------------
(* Errors of parser.New and of starting a parse against LayerConfig.tla.     *)
(* A case: layers, g, ok (parser made), code (error of parser.New), pcode    *)
(* (error of a parse), crash.                                                *)
EXTENDS LayerConfig
VARIABLES ci, v
vars == <<ci, v>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ v = "run"
Say(res, w) == v' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", 0, w) /\ UNCHANGED ci
Judge ==
  /\ v = "run"
  /\ LET new == AtNew(C.g, C.layers)
         parse == AtParse(C.g, C.layers)
     IN IF C.crash = 1 THEN Say("bad", "no crash")
        ELSE IF new # {} THEN IF C.ok = 0 /\ C.code \in new THEN Say("ok", "refused: " \o ToString(C.code)) ELSE Say("bad", new)
        ELSE IF C.ok = 0 THEN Say("bad", "accepted")
        ELSE IF parse # {} THEN IF C.pcode \in parse THEN Say("ok", "refused by the parse") ELSE Say("bad", parse)
        ELSE IF C.pcode = UnknownNode THEN Say("bad", "parsed")
        ELSE Say("ok", "accepted")
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
