-------------------------------- MODULE Assoc --------------------------------
(* Associative containers: il::Map (kind "map"), il::Set ("set") and il::MapArray
   ("maparray").  Abstract state of a slot: the sequence, in order of insertion, of
   its associations <<key, value>>, and `room`: the number of elements the container
   has promised to take without growing.  A Set is a map whose values are 0. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Slots == 1..NSlots
Off == [on |-> FALSE, s |-> <<>>, room |-> 0]
AllOff == [k \in Slots |-> Off]
Mk(s, r) == [on |-> TRUE, s |-> s, room |-> r]
Empty == Mk(<<>>, 0)
Keys(s) == {s[i][1] : i \in 1..Len(s)}
Idx(s, k) == CHOOSE i \in 1..Len(s) : s[i][1] = k
Val(s, k) == s[Idx(s, k)][2]
Put(s, k, x) == IF k \in Keys(s) THEN [s EXCEPT ![Idx(s, k)] = <<k, x>>] ELSE Append(s, <<k, x>>)
Del(s, k) == SelectSeq(s, LAMBDA q : q[1] /= k)
Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE FromLists(_, _, _)
FromLists(ks, vs, n) == IF n = 0 THEN <<>> ELSE Append(FromLists(ks, vs, n - 1), <<ks[n], vs[n]>>)
WellFormed(a) == \A k \in Slots : a[k].on => Cardinality(Keys(a[k].s)) = Len(a[k].s)
(* result of operation e in state a *)
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
Post(a, kind, e) ==
  LET s == e.s
      me == a[s]
      With(q) == [a EXCEPT ![s] = q]
      V(x) == IF kind = "set" THEN 0 ELSE x
      SetTo(k, x) == Res(With([me EXCEPT !.s = Put(me.s, k, V(x))]), TRUE, <<>>)
      Give(t, q) == [a EXCEPT ![t] = Empty, ![s] = q]
  IN CASE e.op = "new" -> Res(With(Empty), TRUE, <<>>)
       [] e.op = "new_n" -> IF e.n < 0 THEN Res(a, FALSE, <<>>) ELSE Res(With(Mk(<<>>, e.n)), TRUE, <<>>)
       [] e.op = "new_list" ->
            LET u == FromLists(e.ks, e.vs, Len(e.ks)) IN
            IF Cardinality(Keys(u)) /= Len(u) THEN Res(a, FALSE, <<>>) ELSE Res(With(Mk(u, 0)), TRUE, <<>>)
       [] e.op = "new_copy" -> Res(With(Mk(a[e.t].s, 0)), TRUE, <<>>)
       [] e.op = "new_move" -> Res(Give(e.t, a[e.t]), TRUE, <<>>)
       [] e.op = "copy_assign" -> Res(IF e.t = s THEN a ELSE With(Mk(a[e.t].s, 0)), TRUE, <<>>)
       [] e.op = "move_assign" -> Res(IF e.t = s THEN a ELSE Give(e.t, a[e.t]), TRUE, <<>>)
       [] e.op = "destroy" -> Res(With(Off), TRUE, <<>>)
       [] e.op \in {"set", "setc"} -> SetTo(e.k, e.x)
       [] e.op = "set_self" -> SetTo(e.k, Val(me.s, e.k2))
       [] e.op \in {"set_io", "setc_io"} ->      \* search, then insert at the spot found unless the key is there
            IF e.k \in Keys(me.s) THEN Res(a, TRUE, <<0, e.k, Val(me.s, e.k)>>)
            ELSE [SetTo(e.k, e.x) EXCEPT !.r = <<1, e.k, V(e.x)>>]
       [] e.op = "put" ->
            IF e.k \in Keys(me.s) THEN SetTo(e.k, e.x) ELSE Res(a, FALSE, <<>>)
       [] e.op \in {"search", "searchc"} -> Res(a, TRUE, IF e.k \in Keys(me.s) THEN <<1, e.k, Val(me.s, e.k)>> ELSE <<0>>)
       [] e.op \in {"val", "valc"} -> Res(a, TRUE, <<IF e.k \in Keys(me.s) THEN Val(me.s, e.k) ELSE 0>>)
       [] e.op \in {"vald", "valdc"} -> Res(a, TRUE, <<IF e.k \in Keys(me.s) THEN Val(me.s, e.k) ELSE e.x>>)
       [] e.op = "erase" ->
            IF e.k \in Keys(me.s) THEN Res(With([me EXCEPT !.s = Del(me.s, e.k)]), TRUE, <<>>) ELSE Res(a, FALSE, <<>>)
       [] e.op = "clear" -> Res(With([me EXCEPT !.s = <<>>]), TRUE, <<>>)
       [] e.op = "reserve" ->
            IF e.n < 0 THEN Res(a, FALSE, <<>>) ELSE Res(With([me EXCEPT !.room = Max2(me.room, e.n)]), TRUE, <<>>)
       [] e.op = "rehash" -> Res(a, TRUE, <<>>)
=============================================================================
