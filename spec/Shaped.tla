------------------------------- MODULE Shaped -------------------------------
(* Containers whose admissible index tuples are given by a shape rule:         *)
(*   box    il::StaticArray, StaticArray2D/2C/3D/4D  (shape fixed by the type) *)
(*   lower  il::LowerArray2D   i1 <= i0          upper  il::UpperArray2D       *)
(*   tri    il::TriDiagonal    (i, k), k in -1..1                              *)
(*   band   il::BandArray2C    (i0, k), -wl <= k <= wr, 0 <= i0 + k < n1       *)
(* An object is its shape and one value per admissible index tuple, listed in  *)
(* lexicographic order of the tuples: the storage layout does not appear.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlots
Slots == 1..NSlots
RECURSIVE ProdTo(_, _)
ProdTo(n, k) == IF k = 0 THEN 1 ELSE n[k] * ProdTo(n, k - 1)
RECURSIVE After(_, _)
After(n, d) == IF d >= Len(n) THEN 1 ELSE n[d + 1] * After(n, d + 1)

\* lowest index and number of indices per dimension of the enclosing box
Lo(kind, n) == CASE kind = "tri" -> <<0, -1>> [] kind = "band" -> <<0, -n[3]>> [] OTHER -> [d \in 1..(IF kind = "box" THEN Len(n) ELSE 2) |-> 0]
Ext(kind, n) == CASE kind = "box" -> n
                  [] kind \in {"lower", "upper"} -> <<n[1], n[1]>>
                  [] kind = "tri" -> <<n[1], 3>>
                  [] kind = "band" -> <<n[1], n[3] + n[4] + 1>>
InBox(kind, n, x) == LET l == Lo(kind, n) m == Ext(kind, n) IN
  Len(x) = Len(m) /\ \A d \in 1..Len(m) : l[d] <= x[d] /\ x[d] < l[d] + m[d]
Adm(kind, n, x) ==
  /\ InBox(kind, n, x)
  /\ CASE kind = "lower" -> x[2] <= x[1]
       [] kind = "upper" -> x[1] <= x[2]
       [] kind = "band" -> 0 <= x[1] + x[2] /\ x[1] + x[2] < n[2]
       [] OTHER -> TRUE
Enum(kind, n) ==
  LET m == Ext(kind, n)  l == Lo(kind, n)
      all == [k \in 1..ProdTo(m, Len(m)) |-> [d \in 1..Len(m) |-> l[d] + (((k - 1) \div After(m, d)) % m[d])]]
  IN SelectSeq(all, LAMBDA x : Adm(kind, n, x))
Count(kind, n) == Len(Enum(kind, n))
Pos(kind, n, x) == LET q == Enum(kind, n) IN CHOOSE k \in 1..Len(q) : q[k] = x
Dims(kind, n) == CASE kind \in {"lower", "upper", "tri"} -> <<n[1]>> [] kind = "band" -> <<n[1], n[2]>> [] OTHER -> n
NonNeg(n) == \A d \in 1..Len(n) : n[d] >= 0
Rep(k, x) == [j \in 1..k |-> x]

Off == [on |-> FALSE, lost |-> FALSE, n |-> <<>>, v |-> <<>>, cap |-> 0]
\* only the triangular matrices report a capacity
Obj(kind, n, v) == [on |-> TRUE, lost |-> FALSE, n |-> n, v |-> v, cap |-> IF kind \in {"lower", "upper"} THEN n[1] ELSE 0]
\* what a move leaves behind: an empty triangular matrix; otherwise an object that
\* may only be assigned to or destroyed
Gone(kind) == IF kind \in {"lower", "upper"} THEN Obj(kind, <<0>>, <<>>) ELSE [on |-> TRUE, lost |-> TRUE, n |-> <<>>, v |-> <<>>, cap |-> 0]
AllOff == [s \in Slots |-> Off]
R(ok, a, r) == [ok |-> ok, a |-> a, r |-> r]
Bad(a) == R(FALSE, a, <<>>)
Put(a, s, o) == R(TRUE, [a EXCEPT ![s] = o], <<>>)

Post(a, kind, e) ==
  LET s == e.s  o == a[s] IN
  CASE e.op = "new"      -> Put(a, s, Obj(kind, <<0>>, <<>>))
    [] e.op = "new_n"    -> IF NonNeg(e.n) THEN Put(a, s, Obj(kind, e.n, e.fill)) ELSE Bad(a)
    [] e.op = "new_val"  -> Put(a, s, Obj(kind, e.n, Rep(Count(kind, e.n), e.x)))
    [] e.op = "new_list" -> Put(a, s, Obj(kind, e.n, e.fill))
    [] e.op = "new_copy" -> Put(a, s, [a[e.t] EXCEPT !.cap = Obj(kind, a[e.t].n, <<>>).cap])
    [] e.op = "new_move" -> R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = Gone(kind)], <<>>)
    [] e.op = "copy_assign" -> Put(a, s, [a[e.t] EXCEPT !.cap = IF kind \in {"lower", "upper"} /\ a[e.t].n[1] <= o.cap THEN o.cap ELSE Obj(kind, a[e.t].n, <<>>).cap])
    [] e.op = "move_assign" -> IF e.t = s THEN R(TRUE, a, <<>>) ELSE R(TRUE, [a EXCEPT ![s] = a[e.t], ![e.t] = Gone(kind)], <<>>)
    [] e.op = "destroy"  -> Put(a, s, Off)
    [] e.op = "get"      -> IF Adm(kind, o.n, e.ix) THEN R(TRUE, a, <<o.v[Pos(kind, o.n, e.ix)]>>) ELSE Bad(a)
    [] e.op = "put"      -> IF Adm(kind, o.n, e.ix) THEN Put(a, s, [o EXCEPT !.v[Pos(kind, o.n, e.ix)] = e.x]) ELSE Bad(a)
    [] e.op = "dim"      -> IF 0 <= e.d /\ e.d < Len(Dims(kind, o.n)) THEN R(TRUE, a, <<Dims(kind, o.n)[e.d + 1]>>) ELSE Bad(a)
    \* one-dimensional boxes: sub-range reads and writes
    [] e.op = "view"     -> IF 0 <= e.b /\ e.b <= e.e /\ e.b < o.n[1] /\ e.e <= o.n[1] THEN R(TRUE, a, SubSeq(o.v, e.b + 1, e.e)) ELSE Bad(a)
    [] e.op = "edit"     -> IF 0 <= e.b /\ e.b <= e.e /\ e.b < o.n[1] /\ e.e <= o.n[1] /\ 0 <= e.i /\ e.i < e.e - e.b
                            THEN Put(a, s, [o EXCEPT !.v[e.b + e.i + 1] = e.x]) ELSE Bad(a)

WellFormed(a, kind) == \A s \in Slots :
  /\ (a[s].on /\ ~a[s].lost => Len(a[s].v) = Count(kind, a[s].n))
  /\ (~a[s].on => a[s] = Off)
\* distinct admissible tuples have distinct positions
OneToOne(kind, n) == LET q == Enum(kind, n) IN \A j, k \in 1..Len(q) : q[j] = q[k] => j = k
===============================================================================
