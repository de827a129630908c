----------------------------- MODULE GenToolTrace -----------------------------
(* Recorded runs of llxgen.  Seen: exit, files (changed or new), and of the  *)
(* file written: pkg (package clause), loads (it compiles, or is JSON of a   *)
(* grammar), tab (the grammar in it).                                        *)
EXTENDS GenTool
VARIABLES ci, step, v
vars == <<ci, step, v>>
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ step = 1 /\ v = "run"
Say(res, w) == v' = res /\ Verdict(C.id, IF res = "bad" THEN "BAD" ELSE "OK", step, w) /\ UNCHANGED <<ci, step>>
NothingWritten == C.files = <<>>
Go == /\ v = "run" /\ step <= Len(Steps)
      /\ LET s == Steps[step]
         IN IF C.exit # 0 /\ MayFail(C, s) THEN Say(IF NothingWritten THEN "ok" ELSE "bad", "fails, no file is written: " \o s)
            ELSE IF MustFail(C, s) THEN Say("bad", "fails: " \o s)
            ELSE step' = step + 1 /\ UNCHANGED <<ci, v>>
End == /\ v = "run" /\ step > Len(Steps)
       /\ IF C.exit # 0 THEN Say("bad", "exit code 0")
          ELSE IF C.files # <<OutName(C)>> THEN Say("bad", [file |-> OutName(C)])
          ELSE IF C.loads = 0 THEN Say("bad", "the file can be used")
          ELSE IF C.j = 0 /\ C.pkg # PkgName(C) THEN Say("bad", [package |-> PkgName(C)])
          ELSE IF C.tab # C.lang.tab THEN Say("bad", "the same grammar")
          ELSE Say("ok", IF C.j = 1 THEN "json" ELSE "go")
Next == Go \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
