------------------------------- MODULE NDArray -------------------------------
(* Multi-dimensional arrays of rank 2, 3 and 4 (il::Array2D, Array2C, Array3D, *)
(* Array3C, Array4D, Array4C).  An array is a shape n (one size per dimension) *)
(* and one value per index tuple; v lists the values with the last index       *)
(* running fastest, whatever the storage order of the implementation is.       *)
(* Capacities are per dimension.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlots
Slots == 1..NSlots

RECURSIVE ProdTo(_, _)
ProdTo(n, k) == IF k = 0 THEN 1 ELSE n[k] * ProdTo(n, k - 1)
Prod(n) == ProdTo(n, Len(n))
RECURSIVE LinTo(_, _, _)
LinTo(n, x, k) == IF k = 0 THEN 0 ELSE LinTo(n, x, k - 1) * n[k] + x[k]
\* position of index tuple x (0-based entries) in a box of shape n, 1-based
Lin(n, x) == LinTo(n, x, Len(n)) + 1
\* product of the sizes after dimension d
RECURSIVE After(_, _)
After(n, d) == IF d >= Len(n) THEN 1 ELSE n[d + 1] * After(n, d + 1)
\* index tuple of the k-th (1-based) element of a box of shape n
Unlin(n, k) == [d \in 1..Len(n) |-> ((k - 1) \div After(n, d)) % n[d]]
InBox(n, x) == \A d \in 1..Len(n) : 0 <= x[d] /\ x[d] < n[d]
NonNeg(n) == \A d \in 1..Len(n) : n[d] >= 0
Leq(n, c) == \A d \in 1..Len(n) : n[d] <= c[d]

Off == [on |-> FALSE, n |-> <<>>, v |-> <<>>, cap |-> <<>>, al |-> 0, ar |-> 0, am |-> 0]
Zero(rk) == [d \in 1..rk |-> 0]
Obj(n, v, al, ar, am) == [on |-> TRUE, n |-> n, v |-> v, cap |-> n, al |-> al, ar |-> ar, am |-> am]
Plain(n, v) == Obj(n, v, 0, 0, 0)
EmptyOf(rk) == Plain(Zero(rk), <<>>)
Rep(n, x) == [k \in 1..Prod(n) |-> x]
AllOff == [s \in Slots |-> Off]

\* the content after a resize to shape m; positions outside the old box take fill
Resized(n, v, m, fill) ==
  [k \in 1..Prod(m) |-> LET x == Unlin(m, k) IN IF InBox(n, x) THEN v[Lin(n, x)] ELSE fill[k]]
NewCount(n, m) == Cardinality({k \in 1..Prod(m) : ~InBox(n, Unlin(m, k))})

R(ok, a, r, inplace, least) == [ok |-> ok, a |-> a, r |-> r, inplace |-> inplace, least |-> least]
Bad(a) == R(FALSE, a, <<>>, TRUE, <<>>)
Read(a, x) == R(TRUE, a, x, TRUE, <<>>)
Put(a, s, o) == R(TRUE, [a EXCEPT ![s] = o], <<>>, FALSE, o.n)
Keep(a, s, v) == R(TRUE, [a EXCEPT ![s].v = v], <<>>, TRUE, a[s].n)
MaxT(x, y) == [d \in 1..Len(x) |-> IF x[d] >= y[d] THEN x[d] ELSE y[d]]
Upd(a, s, n, v, need) ==
  LET fits == Leq(need, a[s].cap) IN
  R(TRUE, [a EXCEPT ![s].n = n, ![s].v = v, ![s].cap = IF fits THEN a[s].cap ELSE need], <<>>, fits, need)

Post(a, e) ==
  LET s == e.s  o == a[s]  rk == e.rk IN
  CASE e.op = "new"       -> Put(a, s, EmptyOf(rk))
    [] e.op = "new_n"     -> IF NonNeg(e.n) THEN Put(a, s, Plain(e.n, e.fill)) ELSE Bad(a)
    [] e.op \in {"new_val", "new_emp"} -> IF NonNeg(e.n) THEN Put(a, s, Plain(e.n, Rep(e.n, e.x))) ELSE Bad(a)
    [] e.op = "new_list"  -> Put(a, s, Plain(e.n, e.fill))
    [] e.op = "new_aln"   -> Put(a, s, Obj(e.n, e.fill, e.al, e.ar, e.am))
    [] e.op = "new_alv"   -> Put(a, s, Obj(e.n, Rep(e.n, e.x), e.al, e.ar, e.am))
    [] e.op = "new_copy"  -> Put(a, s, [a[e.t] EXCEPT !.cap = a[e.t].n])
    [] e.op = "new_move"  -> R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = EmptyOf(rk)], <<>>, FALSE, a[e.t].n)
    [] e.op = "copy_assign" ->
         LET u == a[e.t]  same == u.al = o.al /\ u.ar = o.ar /\ u.am = o.am IN
         IF e.t = s THEN Keep(a, s, o.v)
         ELSE IF same THEN Upd(a, s, u.n, u.v, u.n) ELSE Put(a, s, [u EXCEPT !.cap = u.n])
    [] e.op = "move_assign" ->
         IF e.t = s THEN Keep(a, s, o.v)
         ELSE R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = EmptyOf(rk)], <<>>, FALSE, a[e.t].n)
    [] e.op = "destroy"   -> R(TRUE, [a EXCEPT ![s] = Off], <<>>, FALSE, <<>>)
    [] e.op = "get"       -> IF InBox(o.n, e.ix) THEN Read(a, <<o.v[Lin(o.n, e.ix)]>>) ELSE Bad(a)
    [] e.op = "put"       -> IF InBox(o.n, e.ix) THEN Keep(a, s, [o.v EXCEPT ![Lin(o.n, e.ix)] = e.x]) ELSE Bad(a)
    [] e.op = "fill"      -> Keep(a, s, Rep(o.n, e.x))
    [] e.op = "dim"       -> IF 0 <= e.d /\ e.d < rk THEN Read(a, <<o.n[e.d + 1]>>) ELSE Bad(a)
    [] e.op = "resize"    -> IF NonNeg(e.n) THEN Upd(a, s, e.n, Resized(o.n, o.v, e.n, e.fill), e.n) ELSE Bad(a)
    [] e.op \in {"resize_val", "resize_emp"} ->
                             IF NonNeg(e.n) THEN Upd(a, s, e.n, Resized(o.n, o.v, e.n, Rep(e.n, e.x)), e.n) ELSE Bad(a)
    [] e.op = "resize_self" -> Upd(a, s, e.n, Resized(o.n, o.v, e.n, Rep(e.n, o.v[Lin(o.n, e.ix)])), e.n)
    [] e.op = "reserve"   -> IF NonNeg(e.n) THEN Upd(a, s, o.n, o.v, MaxT(e.n, o.n)) ELSE Bad(a)

FreshOf(a, e) ==
  CASE e.op \in {"new_n"} -> Prod(e.n)
    [] e.op = "resize" -> NewCount(a[e.s].n, e.n)
    [] OTHER -> 0

WellFormed(a) == \A s \in Slots : a[s].on =>
   /\ Len(a[s].v) = Prod(a[s].n)
   /\ Leq(a[s].n, a[s].cap)
===============================================================================
