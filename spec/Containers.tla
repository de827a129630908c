----------------------------- MODULE Containers -----------------------------
(* Ideal deque and ideal integer set (property C22), and the ring buffer that *)
(* implements the deque.                                                      *)
EXTENDS Util

(* ---- ideal deque: a sequence ---- *)
DqStep(s, op) ==
  CASE op.o = "append" -> Append(s, op.a[1])
    [] op.o = "prepend" -> <<op.a[1]>> \o s
    [] op.o = "first" -> IF s = <<>> THEN s ELSE Tail(s)
    [] op.o = "last" -> IF s = <<>> THEN s ELSE Front(s)
    [] op.o = "fill" -> op.a
    [] op.o = "clear" -> <<>>
    [] OTHER -> s
DqRet(s, op) ==
  CASE op.o = "first" -> IF s = <<>> THEN <<0, 0>> ELSE <<Head(s), 1>>
    [] op.o = "last" -> IF s = <<>> THEN <<0, 0>> ELSE <<Last(s), 1>>
    [] op.o = "peek" -> LET i == IF op.a[1] < 0 THEN op.a[1] + Len(s) ELSE op.a[1]
                        IN IF i < 0 \/ i >= Len(s) THEN <<0, 0>> ELSE <<s[i + 1], 1>>
    [] OTHER -> <<>>

(* ---- ring buffer: capacity is a power of two, at least 4 ---- *)
Pow2Above(n) == IF n <= 3 THEN 4 ELSE CHOOSE p \in {8, 16, 32, 64, 128, 256} : p > n /\ p \div 2 <= n
Ring(s) == [cap |-> Pow2Above(Len(s)), head |-> 0, tail |-> Len(s),
            buf |-> [i \in 0..(Pow2Above(Len(s)) - 1) |-> IF i < Len(s) THEN s[i + 1] ELSE 0]]
RLen(r) == (r.tail + r.cap - r.head) % r.cap
RItems(r) == [i \in 1..RLen(r) |-> r.buf[(r.head + i - 1) % r.cap]]
RGrow(r) == [cap |-> r.cap * 2, head |-> 0, tail |-> r.cap,
             buf |-> [i \in 0..(2 * r.cap - 1) |-> IF i < r.cap THEN r.buf[(r.head + i) % r.cap] ELSE 0]]
RFull(r) == IF r.head = r.tail THEN RGrow(r) ELSE r
RShrink(r) ==
  IF r.head = 0 /\ r.cap > 4 /\ r.tail * 4 <= r.cap - 1
  THEN LET c == Pow2Above(r.tail * 2)
       IN [r EXCEPT !.cap = c, !.buf = [i \in 0..(c - 1) |-> IF i < r.tail THEN r.buf[i] ELSE 0]]
  ELSE r
RStep(r, op) ==
  CASE op.o = "append" -> RFull([r EXCEPT !.buf[r.tail] = op.a[1], !.tail = (r.tail + 1) % r.cap])
    [] op.o = "prepend" -> LET h == (r.head + r.cap - 1) % r.cap
                           IN RFull([r EXCEPT !.buf[h] = op.a[1], !.head = h])
    [] op.o = "first" -> IF r.head = r.tail THEN r
                         ELSE RShrink([r EXCEPT !.buf[r.head] = 0, !.head = (r.head + 1) % r.cap])
    [] op.o = "last" -> IF r.head = r.tail THEN r
                        ELSE LET t == (r.tail + r.cap - 1) % r.cap
                             IN [r EXCEPT !.buf[t] = 0, !.tail = t]
    [] op.o = "fill" -> Ring(op.a)
    [] op.o = "clear" -> Ring(<<>>)
    [] OTHER -> r

(* ---- ideal sets: registers 0..2 ---- *)
Items(op, from) == {op.a[i] : i \in from..Len(op.a)}
S(st, i) == st[i + 1]
StStep(st, op) ==
  LET put(x) == [st EXCEPT ![op.a[1] + 1] = x]
      me == S(st, op.a[1])
  IN CASE op.o \in {"new", "from"} -> put(Items(op, 2))
       [] op.o = "add" -> put(me \cup Items(op, 2))
       [] op.o = "remove" -> put(me \ Items(op, 2))
       [] op.o = "copy" -> put(S(st, op.a[2]))
       [] op.o = "unite" -> put(me \cup S(st, op.a[2]))
       [] op.o = "inter" -> put(me \cap S(st, op.a[2]))
       [] op.o = "minus" -> put(me \ S(st, op.a[2]))
       [] op.o = "Unite" -> put(S(st, op.a[2]) \cup S(st, op.a[3]))
       [] op.o = "Inter" -> put(S(st, op.a[2]) \cap S(st, op.a[3]))
       [] op.o = "Minus" -> put(S(st, op.a[2]) \ S(st, op.a[3]))
       [] OTHER -> st
B(x) == IF x THEN 1 ELSE 0
StRet(st, op) ==
  CASE op.o = "has" -> B(op.a[2] \in S(st, op.a[1]))
    [] op.o = "eq" -> B(S(st, op.a[1]) = S(st, op.a[2]))
    [] op.o = "empty" -> B(S(st, op.a[1]) = {})
    [] OTHER -> 0
==============================================================================
