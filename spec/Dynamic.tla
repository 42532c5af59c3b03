------------------------------- MODULE Dynamic -------------------------------
(* il::Dynamic: a value whose type is known at run time.  A value is a tree
     [t: the type, n: the content (a list of integers: limbs of a number, bytes of a
      string, extents and limbs of an array), k: the keys (maps only), c: the children].
   Containers own their children: copies are deep, nothing is shared between variables,
   and a value is what was last stored.  A slot holds a root value.  The children of a map
   are sorted by key (its own order is not specified); those of a MapArray and of an array
   are in insertion order.  Paths are lists of child positions (1-based). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Slots == 1..NSlots
Void == [t |-> "void", n |-> <<>>, k |-> <<>>, c |-> <<>>]
Off == [on |-> FALSE, v |-> Void]
AllOff == [s \in Slots |-> Off]
Types == <<"void", "bool", "u8", "i8", "u16", "i16", "u32", "u64", "int", "f32", "f64", "str", "arr", "map", "marr",
           "au8", "ai8", "au16", "ai16", "au32", "ai32", "au64", "ai64", "af64", "a2u8", "a2f64">>
Number(i) == Types[i]
Containers == {"arr", "map", "marr"}
RECURSIVE At(_, _), Put(_, _, _), Count(_), CountC(_, _), Sound(_)
At(v, p) == IF p = <<>> THEN v ELSE At(v.c[p[1]], Tail(p))
Put(v, p, x) == IF p = <<>> THEN x ELSE [v EXCEPT !.c[p[1]] = Put(v.c[p[1]], Tail(p), x)]
CountC(c, i) == IF i = 0 THEN 0 ELSE Count(c[i]) + CountC(c, i - 1)
Count(v) == 1 + CountC(v.c, Len(v.c))
Sound(v) ==
  /\ v.t \in {Types[i] : i \in 1..Len(Types)}
  /\ (v.t \notin Containers) => v.c = <<>>
  /\ (v.t \in {"map", "marr"}) => Len(v.k) = Len(v.c) /\ \A i, j \in 1..Len(v.k) : i /= j => v.k[i] /= v.k[j]
  /\ (v.t = "map") => \A i \in 1..(Len(v.k) - 1) : v.k[i] < v.k[i + 1]
  /\ (v.t \notin {"map", "marr"}) => v.k = <<>>
  /\ \A i \in 1..Len(v.c) : Sound(v.c[i])
\* path p of slot s is strictly below path q of slot t
Inside(s, p, t, q) == s = t /\ Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
WithKey(v, key, x) ==
  IF \E i \in 1..Len(v.k) : v.k[i] = key THEN [v EXCEPT !.c[CHOOSE i \in 1..Len(v.k) : v.k[i] = key] = x]
  ELSE LET b == IF v.t = "map" THEN Cardinality({i \in 1..Len(v.k) : v.k[i] < key}) ELSE Len(v.k) IN
       [v EXCEPT !.k = SubSeq(v.k, 1, b) \o <<key>> \o SubSeq(v.k, b + 1, Len(v.k)),
                 !.c = SubSeq(v.c, 1, b) \o <<x>> \o SubSeq(v.c, b + 1, Len(v.c))]
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
Post(a, e) ==
  LET s == e.s
      root == a[s].v
      New(x) == [a EXCEPT ![s] = [on |-> TRUE, v |-> x]]
      Part == At(a[e.t].v, e.p)
      \* store x at path q of slot s, in the state b
      Store(b, x) == [b EXCEPT ![s].v = Put(b[s].v, e.q, x)]
      Target == At(root, e.q)
  IN CASE e.op = "new" -> Res(New(Void), TRUE, <<>>)
       \* of a given scalar type, with the value zero
       [] e.op = "new_type" -> Res(New(e.v), TRUE, <<>>)
       [] e.op = "new_val" -> Res(New(e.v), TRUE, <<>>)
       [] e.op = "set_val" -> Res(Store(a, e.v), TRUE, <<>>)
       [] e.op = "new_copy" -> Res(New(Part), TRUE, <<>>)
       \* what is moved from becomes void
       [] e.op = "new_move" -> Res([New(Part) EXCEPT ![e.t].v = Put(@, e.p, Void)], TRUE, <<>>)
       [] e.op = "copy_assign" -> Res(Store(a, Part), TRUE, <<>>)
       \* moving a part of a value into the whole drops the rest of it
       [] e.op = "move_assign" ->
            Res(IF s = e.t /\ e.q = e.p THEN a
                ELSE Store([a EXCEPT ![e.t].v = Put(@, e.p, Void)], Part), TRUE, <<>>)
       \* x = y.as<il::String>()
       [] e.op = "str_assign" -> Res(Store(a, Part), TRUE, <<>>)
       \* As<il::Array<il::Dynamic>>().Append(...)
       [] e.op = "append" -> Res(Store(a, [Target EXCEPT !.c = Append(@, e.v)]), TRUE, <<>>)
       [] e.op = "append_part" -> Res(Store(a, [Target EXCEPT !.c = Append(@, Part)]), TRUE, <<>>)
       [] e.op = "key" -> Res(Store(a, WithKey(Target, e.key, e.v)), TRUE, <<>>)
       [] e.op = "destroy" -> Res([a EXCEPT ![s] = Off], TRUE, <<>>)
       \* is<T>() for every T of Types but void
       [] e.op = "is" -> Res(a, TRUE, [i \in 1..(Len(Types) - 1) |-> IF Types[i + 1] = Target.t THEN 1 ELSE 0])
       \* as<T>()/to<T>()/As<T>() with any T: a wrong T is a broken contract
       [] e.op = "access" -> IF Types[e.ty] = Target.t THEN Res(a, TRUE, <<Len(Target.n)>> \o Target.n) ELSE Res(a, FALSE, <<>>)
=============================================================================
