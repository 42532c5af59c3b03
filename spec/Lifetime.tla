------------------------------ MODULE Lifetime ------------------------------
(* What owning containers may do with memory and with the objects in it.

   live    heap blocks handed out and not yet released: block number -> size
   alive   objects constructed and not yet destroyed, as <<block, offset>>;
           block 0 stands for storage outside the heap blocks of the code under
           test (temporaries, inline buffers), where the offset is just a name

   The events are <<kind, block, offset, size>>:
     "a" a block is allocated       "f" a block is released
     "b" an object is constructed   "d" an object is destroyed
     "r" an object is read, moved from or assigned                              *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [live |-> << >>, alive |-> {}]     \* no block, no object

InBlock(s, b) == {x \in s.alive : x[1] = b}
Apart(o, p, n) == \/ o + n <= p
                  \/ p + n <= o

Ok(s, e) ==
  LET k == e[1]  b == e[2]  o == e[3]  n == e[4] IN
  CASE k = "a" -> b > 0 /\ b \notin DOMAIN s.live
    [] k = "f" -> b \in DOMAIN s.live /\ InBlock(s, b) = {}     \* everything in it was destroyed
    [] k = "b" -> IF b = 0 THEN <<0, o>> \notin s.alive
                  ELSE /\ b \in DOMAIN s.live
                       /\ o + n <= s.live[b]                     \* room for the whole object
                       /\ \A x \in InBlock(s, b) : Apart(x[2], o, n)
    [] k = "d" -> <<b, o>> \in s.alive
    [] k = "r" -> <<b, o>> \in s.alive
    [] OTHER -> FALSE

Step(s, e) ==
  LET k == e[1]  b == e[2]  o == e[3]  n == e[4] IN
  CASE k = "a" -> [s EXCEPT !.live = [c \in DOMAIN @ \cup {b} |-> IF c = b THEN n ELSE @[c]]]
    [] k = "f" -> [s EXCEPT !.live = [c \in DOMAIN @ \ {b} |-> @[c]]]
    [] k = "b" -> [s EXCEPT !.alive = @ \cup {<<b, o>>}]
    [] k = "d" -> [s EXCEPT !.alive = @ \ {<<b, o>>}]
    [] OTHER -> s

(* The state after a sequence of events, and how many of them were allowed. *)
RECURSIVE Run(_, _, _)
Run(s, es, i) == IF i > Len(es) THEN [s |-> s, n |-> Len(es)]
                 ELSE IF ~Ok(s, es[i]) THEN [s |-> s, n |-> i - 1]
                 ELSE Run(Step(s, es[i]), es, i + 1)
Allowed(s, es) == Run(s, es, 1).n = Len(es)
After(s, es) == Run(s, es, 1).s

(* Nothing is left behind. *)
Clean(s) == s.live = << >> /\ s.alive = {}
=============================================================================
