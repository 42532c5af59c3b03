-------------------------------- MODULE Array --------------------------------
(* il::Array<T>: a store of named slots, each empty or holding one array.      *)
(* An array is a sequence of values, a capacity and an alignment request.      *)
(* Post(a, ty, e) is the one definition of what operation e does; it is used   *)
(* both to explore the abstract machine (ArrayGen) and to decide traces        *)
(* recorded from the code (ArrayTrace).                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NSlots, K   \* K: elements stored inline (il::SmallArray); 0 for il::Array
Max(x, y) == IF x >= y THEN x ELSE y
Slots == 1..NSlots

Off == [on |-> FALSE, v |-> <<>>, cap |-> 0, al |-> 0, ar |-> 0, am |-> 0]
Obj(v, al, ar, am) == [on |-> TRUE, v |-> v, cap |-> Max(K, Len(v)), al |-> al, ar |-> ar, am |-> am]
Plain(v) == Obj(v, 0, 0, 0)
Rep(n, x) == [i \in 1..n |-> x]
Prefix(v, n) == SubSeq(v, 1, n)
AllOff == [s \in Slots |-> Off]

(* A result: ok - the contract of the call holds; a - the store afterwards;    *)
(* r - the reply  ; inplace - the call must not reallocate slot e.s; least -   *)
(* the smallest capacity slot e.s may have afterwards.                         *)
R(ok, a, r, inplace, least) == [ok |-> ok, a |-> a, r |-> r, inplace |-> inplace, least |-> least]
Bad(a) == R(FALSE, a, <<>>, TRUE, 0)
Put(a, s, o) == R(TRUE, [a EXCEPT ![s] = o], <<>>, FALSE, Len(o.v))
Read(a, x) == R(TRUE, a, x, TRUE, 0)   \* x: a sequence of values

\* grow or shrink the array in slot s to v, where `need` slots are required and
\* `pol` is the capacity the documentation promises if storage must grow
Upd(a, s, v, need, pol) ==
  LET o == a[s]  fits == need <= o.cap
      c == IF fits THEN o.cap ELSE pol
  IN R(TRUE, [a EXCEPT ![s].v = v, ![s].cap = c], <<>>, fits, need)

Grow2(n) == IF n <= 1 THEN n + 1 ELSE IF K > 0 THEN n + n \div 2 ELSE 2 * n

Resized(v, n, fill) == IF n <= Len(v) THEN Prefix(v, n) ELSE v \o fill

InR(b, e, n) == 0 <= b /\ b <= e /\ b < n /\ e <= n

Creates(op) == op \in {"new", "new_n", "new_val", "new_emp", "new_list", "new_aln", "new_alv"}
From(op)    == op \in {"new_copy", "new_move", "new_view", "copy_assign", "move_assign"}

Post(a, e) ==
  LET s == e.s  o == a[s]  v == a[s].v  n == Len(a[s].v) IN
  CASE e.op = "new"       -> Put(a, s, Plain(<<>>))
    [] e.op = "new_n"     -> IF e.n < 0 THEN Bad(a) ELSE Put(a, s, Plain(e.fill))
    [] e.op = "new_val"   -> IF e.n < 0 THEN Bad(a) ELSE Put(a, s, Plain(Rep(e.n, e.x)))
    [] e.op = "new_emp"   -> IF e.n < 0 THEN Bad(a) ELSE Put(a, s, Plain(Rep(e.n, e.x)))
    [] e.op = "new_list"  -> Put(a, s, Plain(e.vals))
    [] e.op = "new_aln"   -> Put(a, s, Obj(e.fill, e.al, e.ar, e.am))
    [] e.op = "new_alv"   -> Put(a, s, Obj(Rep(e.n, e.x), e.al, e.ar, e.am))
    [] e.op = "new_view"  -> IF InR(e.b, e.e, Len(a[e.t].v)) THEN Put(a, s, Plain(SubSeq(a[e.t].v, e.b + 1, e.e))) ELSE Bad(a)
    [] e.op = "new_copy"  -> Put(a, s, [a[e.t] EXCEPT !.cap = Max(K, Len(a[e.t].v))])
    [] e.op = "new_move"  -> R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = Plain(<<>>)], <<>>, FALSE, a[e.t].cap)
    [] e.op = "copy_assign" ->
         LET u == a[e.t]
             same == u.al = o.al /\ u.ar = o.ar /\ u.am = o.am
         IN IF e.t = s THEN R(TRUE, a, <<>>, TRUE, n)
            ELSE IF same THEN Upd(a, s, u.v, Len(u.v), Len(u.v))
            ELSE Put(a, s, [u EXCEPT !.cap = Max(K, Len(u.v))])
    [] e.op = "move_assign" ->
         IF e.t = s THEN R(TRUE, a, <<>>, TRUE, n)
         ELSE R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = Plain(<<>>)], <<>>, FALSE, a[e.t].cap)
    [] e.op = "destroy"   -> R(TRUE, [a EXCEPT ![s] = Off], <<>>, FALSE, 0)
    [] e.op = "get"       -> IF 0 <= e.i /\ e.i < n THEN Read(a, <<v[e.i + 1]>>) ELSE Bad(a)
    [] e.op = "put"       -> IF 0 <= e.i /\ e.i < n THEN R(TRUE, [a EXCEPT ![s].v[e.i + 1] = e.x], <<>>, TRUE, n) ELSE Bad(a)
    [] e.op = "back"      -> IF n > 0 THEN Read(a, <<v[n]>>) ELSE Bad(a)
    [] e.op = "put_back"  -> IF n > 0 THEN R(TRUE, [a EXCEPT ![s].v[n] = e.x], <<>>, TRUE, n) ELSE Bad(a)
    [] e.op = "fill"      -> R(TRUE, [a EXCEPT ![s].v = Rep(n, e.x)], <<>>, TRUE, n)
    [] e.op = "inc"       -> R(TRUE, [a EXCEPT ![s].v = [i \in 1..n |-> v[i] + 1]], <<>>, TRUE, n)
    [] e.op = "resize"    -> IF e.n < 0 THEN Bad(a) ELSE Upd(a, s, Resized(v, e.n, e.fill), e.n, e.n)
    [] e.op \in {"resize_val", "resize_emp"}
                          -> IF e.n < 0 THEN Bad(a) ELSE Upd(a, s, Resized(v, e.n, Rep(e.n - n, e.x)), e.n, e.n)
    [] e.op = "resize_self" -> Upd(a, s, Resized(v, e.n, Rep(e.n - n, v[e.i + 1])), e.n, e.n)
    [] e.op = "reserve"   -> IF e.n < 0 THEN Bad(a) ELSE Upd(a, s, v, e.n, e.n)
    [] e.op \in {"append", "append_mv", "append_emp"} -> Upd(a, s, Append(v, e.x), n + 1, Grow2(n))
    [] e.op = "append_self" -> Upd(a, s, Append(v, v[e.i + 1]), n + 1, Grow2(n))
    [] e.op = "view"      -> IF InR(e.b, e.e, n) THEN Read(a, SubSeq(v, e.b + 1, e.e)) ELSE Bad(a)
    [] e.op = "edit"      ->   \* write x at offset i of Edit(range b..e)
         IF InR(e.b, e.e, n) /\ 0 <= e.i /\ e.i < e.e - e.b
         THEN R(TRUE, [a EXCEPT ![s].v[e.b + e.i + 1] = e.x], <<>>, TRUE, n) ELSE Bad(a)

(* values a class type shows in default-constructed new elements, before they are written *)
FreshOf(a, e) ==
  LET n == Len(a[e.s].v) IN
  CASE e.op \in {"new_n", "new_aln"} -> Len(e.fill)
    [] e.op = "resize" -> IF e.n > n THEN e.n - n ELSE 0
    [] OTHER -> 0

(* invariants of the abstract machine *)
WellFormed(a) == \A s \in Slots :
   /\ Len(a[s].v) <= a[s].cap
   /\ (a[s].on => K <= a[s].cap)
   /\ (~a[s].on => a[s] = Off)
   /\ (a[s].am = 0 => a[s].ar = 0) /\ (a[s].am > 0 => a[s].ar < a[s].am)
===============================================================================
