-------------------------------- MODULE Deque --------------------------------
(* il::Deque: a double-ended queue in a circular buffer of fixed capacity.
   v: the elements from front to back; cap: the capacity; f: the position of the front in
   the buffer (hidden from the user; it selects which behaviours are replayed). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Slots == 1..NSlots
Off == [on |-> FALSE, v |-> <<>>, cap |-> 0, f |-> 0]
AllOff == [k \in Slots |-> Off]
Mk(n) == [on |-> TRUE, v |-> <<>>, cap |-> n, f |-> 0]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
WellFormed(a) == \A k \in Slots : Len(a[k].v) <= a[k].cap
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
Post(a, e) ==
  LET s == e.s
      me == a[s]
      n == Len(me.v)
      With(q) == [a EXCEPT ![s] = q]
      X == IF e.op = "push_front" \/ e.op = "push_back" THEN e.x ELSE me.v[1]   \* push_*_self: a copy of the front
  IN CASE e.op = "new" -> Res(With(Mk(0)), TRUE, <<>>)
       [] e.op = "new_n" -> IF e.n < 0 THEN Res(a, FALSE, <<>>) ELSE Res(With(Mk(e.n)), TRUE, <<>>)
       [] e.op = "new_copy" -> Res(With(a[e.t]), TRUE, <<>>)
       [] e.op = "copy_assign" -> Res(With(a[e.t]), TRUE, <<>>)
       [] e.op = "new_move" -> Res([a EXCEPT ![s] = a[e.t], ![e.t] = Mk(0)], TRUE, <<>>)
       [] e.op = "move_assign" -> Res(IF e.t = s THEN a ELSE [a EXCEPT ![s] = a[e.t], ![e.t] = Mk(0)], TRUE, <<>>)
       [] e.op = "destroy" -> Res(With(Off), TRUE, <<>>)
       [] e.op = "reserve" -> IF me.cap /= 0 THEN Res(a, FALSE, <<>>) ELSE Res(With(Mk(e.n)), TRUE, <<>>)
       [] e.op \in {"push_front", "push_front_self"} ->
            Res(With([me EXCEPT !.v = <<X>> \o me.v, !.f = IF n = 0 THEN 0 ELSE (me.f + me.cap - 1) % me.cap]), TRUE, <<>>)
       [] e.op \in {"push_back", "push_back_self"} -> Res(With([me EXCEPT !.v = Append(me.v, X), !.f = IF n = 0 THEN 0 ELSE me.f]), TRUE, <<>>)
       \* pushing in a full deque stops the program and changes nothing
       [] e.op = "full" -> Res(a, TRUE, <<1, 1, 1, 1>>)
       [] e.op = "pop_front" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(With([me EXCEPT !.v = Tail(me.v), !.f = IF n = 1 THEN 0 ELSE (me.f + 1) % me.cap]), TRUE, <<>>)
       [] e.op = "pop_back" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(With([me EXCEPT !.v = SubSeq(me.v, 1, n - 1), !.f = IF n = 1 THEN 0 ELSE me.f]), TRUE, <<>>)
       [] e.op = "front" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(a, TRUE, <<me.v[1]>>)
       [] e.op = "back" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(a, TRUE, <<me.v[n]>>)
       [] e.op = "put_front" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(With([me EXCEPT !.v[1] = e.x]), TRUE, <<>>)
       [] e.op = "put_back" -> IF n = 0 THEN Res(a, FALSE, <<>>) ELSE Res(With([me EXCEPT !.v[n] = e.x]), TRUE, <<>>)
=============================================================================
