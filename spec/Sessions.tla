------------------------------ MODULE Sessions ------------------------------
(* Sessions (parses, tree building parses, compilations of descriptions) that *)
(* take place in one program.  A session is its script: the sequence of       *)
(* events (hook calls with everything the hooks see, then results, errors and *)
(* what is left in the source queue) it produces on its own.  The program's   *)
(* state is how far every session has got; nothing else exists, so a step of  *)
(* a session is possible at any time and never changes another one.           *)
EXTENDS Naturals, Sequences

Begin(scripts) == [s \in 1..Len(scripts) |-> 0]
\* the event e of session s may come next
Can(scripts, pos, s, e) == /\ s \in 1..Len(scripts)
                           /\ pos[s] < Len(scripts[s])
                           /\ scripts[s][pos[s] + 1] = e
Step(pos, s) == [pos EXCEPT ![s] = @ + 1]
Over(scripts, pos) == \A s \in 1..Len(scripts) : pos[s] = Len(scripts[s])
=============================================================================
