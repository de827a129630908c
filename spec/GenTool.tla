------------------------------- MODULE GenTool -------------------------------
(* The grammar generator llxgen (property C19): a run of the tool as steps   *)
(* over the files it sees.  All names are sequences of bytes.                *)
(*                                                                           *)
(* A run: j (JSON), o, p, v (options, <<>> if not given), in (input name),   *)
(* cwd (name of the current directory), there (the input can be read),       *)
(* outdir (the output directory exists), lang [ok, tab] (what the            *)
(* description parser says).                                                 *)
EXTENDS Util

Dot == 46
Slash == 47
LastAt(s, b, from) == LET is == {i \in from..Len(s) : s[i] = b} IN IF is = {} THEN 0 ELSE MaxOf(is)
(* the name without its extension *)
Stem(s) == LET e == LastAt(s, Dot, LastAt(s, Slash, 1) + 1) IN IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
GoExt == <<46, 103, 111>>
JsonExt == <<46, 106, 115, 111, 110>>
OutName(r) == IF r.o # <<>> THEN r.o ELSE Stem(r.in) \o (IF r.j = 1 THEN JsonExt ELSE GoExt)

(* the last directory in the name of a file *)
DirName(r, f) ==
  LET e == LastAt(f, Slash, 1)
      d == SubSeq(f, 1, e - 1)
      b == LastAt(d, Slash, 1)
  IN IF e = 0 THEN r.cwd ELSE SubSeq(d, b + 1, Len(d))
PkgName(r) == IF r.p # <<>> THEN r.p ELSE DirName(r, OutName(r))
VarName(r) == IF r.v # <<>> THEN r.v ELSE r.lang.tab.nodes[1].n

IsAlpha(b) == (b >= 97 /\ b <= 122) \/ (b >= 65 /\ b <= 90) \/ b = 95
IsAlnum(b) == IsAlpha(b) \/ (b >= 48 /\ b <= 57)
Ident(s) == s # <<>> /\ IsAlpha(s[1]) /\ \A i \in 1..Len(s) : IsAlnum(s[i])
(* identifiers that are special in Go, or used by generated files themselves *)
Special == {<<98, 114, 101, 97, 107>>, <<99, 97, 115, 101>>, <<99, 104, 97, 110>>, <<99, 111, 110, 115, 116>>, <<99, 111, 110, 116, 105, 110, 117, 101>>,
            <<100, 101, 102, 97, 117, 108, 116>>, <<100, 101, 102, 101, 114>>, <<101, 108, 115, 101>>, <<102, 97, 108, 108, 116, 104, 114, 111, 117, 103, 104>>,
            <<102, 111, 114>>, <<102, 117, 110, 99>>, <<103, 111>>, <<103, 111, 116, 111>>, <<105, 102>>, <<105, 109, 112, 111, 114, 116>>,
            <<105, 110, 116, 101, 114, 102, 97, 99, 101>>, <<109, 97, 112>>, <<112, 97, 99, 107, 97, 103, 101>>, <<114, 97, 110, 103, 101>>,
            <<114, 101, 116, 117, 114, 110>>, <<115, 101, 108, 101, 99, 116>>, <<115, 116, 114, 117, 99, 116>>, <<115, 119, 105, 116, 99, 104>>,
            <<116, 121, 112, 101>>, <<118, 97, 114>>,
            <<95>>, <<105, 110, 105, 116>>, <<109, 97, 105, 110>>, <<103, 114, 97, 109, 109, 97, 114>>, <<115, 116, 114, 105, 110, 103>>}

(* A run is a sequence of steps, each may end the run with a failure. *)
Steps == <<"read", "parse", "names", "write">>
MustFail(r, step) ==
  CASE step = "read" -> r.in = <<>> \/ r.there = 0
    [] step = "parse" -> r.lang.ok = 0
    [] step = "names" -> r.j = 0 /\ ~ (Ident(PkgName(r)) /\ Ident(VarName(r)))
    [] step = "write" -> r.outdir = 0
MayFail(r, step) ==
  \/ MustFail(r, step)
  \/ step = "names" /\ r.j = 0 /\ (PkgName(r) \in Special \/ VarName(r) \in Special)
  \/ step = "write" /\ r.j = 1 /\ r.utf8 = 0          \* JSON holds valid texts only
=============================================================================
