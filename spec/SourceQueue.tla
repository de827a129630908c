----------------------------- MODULE SourceQueue -----------------------------
(* The ideal source queue (property C07): a list of <<source, position>>, the *)
(* first one is current.  Sources are numbers, lens gives their lengths.      *)
EXTENDS Util

Cur(list) == IF list = <<>> THEN <<0, 0>> ELSE Head(list)
SrcLen(lens, s) == IF s = 0 THEN 0 ELSE lens[s]
CurEmpty(lens, list) == list # <<>> /\ SrcLen(lens, list[1][1]) = 0
SetPos(list, p) == IF list = <<>> THEN list ELSE <<<<list[1][1], p>>>> \o Tail(list)

(* An empty source never joins other sources and gives way to any source. *)
DoAppend(lens, list, s) ==
  IF s = 0 THEN list
  ELSE IF list = <<>> \/ CurEmpty(lens, list) THEN <<<<s, 0>>>>
  ELSE IF lens[s] = 0 THEN list
  ELSE Append(list, <<s, 0>>)
DoPrepend(lens, list, s) ==
  IF s = 0 THEN list
  ELSE IF list = <<>> \/ CurEmpty(lens, list) THEN <<<<s, 0>>>>
  ELSE IF lens[s] = 0 THEN list
  ELSE <<<<s, 0>>>> \o list
DoNext(list) == IF list = <<>> THEN list ELSE Tail(list)
DoSkip(lens, list, n) ==
  IF list = <<>> \/ n <= 0 THEN list ELSE SetPos(list, Min(list[1][2] + n, lens[list[1][1]]))
DoRewind(list, n) == IF list = <<>> \/ n <= 0 THEN list ELSE SetPos(list, Max(list[1][2] - n, 0))
DoSeek(lens, list, p) == IF list = <<>> THEN list ELSE SetPos(list, Clamp(p, 0, lens[list[1][1]]))

Apply(lens, list, snaps, op) ==
  CASE op.o = "append" -> DoAppend(lens, list, op.a)
    [] op.o = "prepend" -> DoPrepend(lens, list, op.a)
    [] op.o = "next" -> DoNext(list)
    [] op.o = "skip" -> DoSkip(lens, list, op.a)
    [] op.o = "rewind" -> DoRewind(list, op.a)
    [] op.o = "seek" -> DoSeek(lens, list, op.a)
    [] op.o = "restore" -> snaps[op.a]
    [] op.o = "drain" -> <<>>
    [] OTHER -> list

(* What the queue shows after an operation. *)
Shown(lens, before, after, op) ==
  LET c == Cur(after) IN
  [lc |-> IF after = <<>> THEN <<0, 0>> ELSE <<1, c[2] + 1>>, slc |-> IF after = <<>> THEN <<0, 0>> ELSE <<1, c[2] + 1>>,
   src |-> c[1], pos |-> c[2], nm |-> c[1], ssrc |-> c[1], spos |-> c[2],
   empty |-> IF after = <<>> THEN 1 ELSE 0,
   eof |-> IF after = <<>> \/ c[2] >= SrcLen(lens, c[1]) THEN 1 ELSE 0,
   cl |-> SrcLen(lens, c[1]), cp |-> c[2],
   cf |-> IF SrcLen(lens, c[1]) = 0 THEN 0 ELSE c[1],
   ret |-> IF op.o = "next" /\ after # <<>> THEN 1 ELSE 0,
   drain |-> IF op.o = "drain" THEN before ELSE <<>>]

(* Invariants of the ideal list. *)
WellFormed(lens, list) ==
  /\ \A i \in 1..Len(list) : list[i][2] >= 0 /\ list[i][2] <= lens[list[i][1]]
  /\ Len(list) > 1 => \A i \in 1..Len(list) : lens[list[i][1]] > 0
==============================================================================
