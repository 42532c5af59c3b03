-------------------------------- MODULE Tree --------------------------------
(* il::Tree<T, n>: every node has at most n children, numbered 0..n-1.  A node is named by
   its path from the root (the sequence of child numbers); the abstract state of a slot
   maps the path of every node of the tree to its value and whether it has been set. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Slots == 1..NSlots
Root == <<>>
NoNodes == [p \in {} |-> 0]
Off == [on |-> FALSE, lost |-> FALSE, t |-> NoNodes]
AllOff == [k \in Slots |-> Off]
Node == [v |-> 0, e |-> TRUE]
Sole == [on |-> TRUE, lost |-> FALSE, t |-> [p \in {Root} |-> Node]]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Kids(t, p, n) == {i \in 0..(n - 1) : Append(p, i) \in DOMAIN t}
Depth(t) == CHOOSE d \in {Len(p) : p \in DOMAIN t} : \A p \in DOMAIN t : Len(p) <= d
WellFormed(a, n) == \A k \in Slots : a[k].on /\ ~a[k].lost =>
   /\ Root \in DOMAIN a[k].t
   /\ \A p \in DOMAIN a[k].t : p /= Root => Parent(p) \in DOMAIN a[k].t /\ p[Len(p)] \in 0..(n - 1)
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
Post(a, n, e) ==
  LET s == e.s
      me == a[s]
      With(q) == [a EXCEPT ![s] = q]
      Lose(t) == [a EXCEPT ![s] = a[t], ![t].lost = TRUE]
  IN CASE e.op \in {"new", "new_depth"} -> Res(With(Sole), TRUE, <<>>)
       [] e.op \in {"new_copy", "copy_assign"} -> Res(With(a[e.t]), TRUE, <<>>)
       [] e.op \in {"new_move", "move_assign"} -> Res(IF e.t = s THEN a ELSE Lose(e.t), TRUE, <<>>)
       [] e.op = "destroy" -> Res(With(Off), TRUE, <<>>)
       [] e.op = "add" ->    \* the i-th child of the node at path p; adding it again changes nothing
            IF e.i \notin 0..(n - 1) THEN Res(a, FALSE, <<>>)
            ELSE LET q == Append(e.p, e.i) IN
                 Res(IF q \in DOMAIN me.t THEN a ELSE With([me EXCEPT !.t = [x \in DOMAIN me.t \cup {q} |-> IF x = q THEN Node ELSE me.t[x]]]), TRUE, <<>>)
       [] e.op = "set" -> Res(With([me EXCEPT !.t[e.p] = [v |-> e.x, e |-> FALSE]]), TRUE, <<>>)
       [] e.op = "parent" -> IF e.p = Root THEN Res(a, FALSE, <<>>) ELSE Res(a, TRUE, <<me.t[Parent(e.p)].v>>)
       [] e.op = "child" -> IF Kids(me.t, e.p, n) = {} THEN Res(a, FALSE, <<>>) ELSE Res(a, TRUE, <<me.t[Append(e.p, e.i)].v>>)
       [] e.op = "has" -> IF e.i \notin 0..(n - 1) THEN Res(a, FALSE, <<>>) ELSE Res(a, TRUE, <<IF e.i \in Kids(me.t, e.p, n) THEN 1 ELSE 0>>)
=============================================================================
