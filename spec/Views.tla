-------------------------------- MODULE Views --------------------------------
(* Views and edits of a container.  The container is a box of cells numbered 1.. (first index
   fastest, whatever the storage order).  A view is a box whose entries are cell numbers: it is
   determined by what it selects, not by how the code addresses it.
   Sources: slot 0 is the container, slots 1.. are views. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Slots == 1..NSlots
NoView == [on |-> FALSE, w |-> FALSE, ext |-> <<>>, al |-> <<>>]
RECURSIVE Prod(_)
Prod(n) == IF n = <<>> THEN 1 ELSE n[1] * Prod(Tail(n))
Box(n) == [w |-> TRUE, ext |-> n, al |-> [k \in 1..Prod(n) |-> k]]
\* position (1..) of a 0-based index in a box
RECURSIVE Pos(_, _)
Pos(ext, ix) == IF ext = <<>> THEN 1 ELSE ix[1] + 1 + (ext[1] * (Pos(Tail(ext), Tail(ix)) - 1))
Inside(ext, ix) == Len(ix) = Len(ext) /\ \A d \in 1..Len(ext) : 0 <= ix[d] /\ ix[d] < ext[d]
RangeOk(n, b, e) == 0 <= b /\ b <= e /\ e <= n
\* an empty range at the very end: the code refuses it in checked builds; not specified
Edge(n, b, e) == b = n /\ e = n
Digit(ext, d, k) == IF d = 1 THEN (k - 1) % ext[1] ELSE (k - 1) \div ext[1]
Sub(v, r) ==
  IF Len(v.ext) = 1 THEN [w |-> v.w, ext |-> <<r[2] - r[1]>>, al |-> SubSeq(v.al, r[1] + 1, r[2])]
  ELSE LET n == <<r[2] - r[1], r[4] - r[3]>> IN
       [w |-> v.w, ext |-> n, al |-> [k \in 1..Prod(n) |-> v.al[Pos(v.ext, <<r[1] + Digit(n, 1, k), r[3] + Digit(n, 2, k)>>)]]]
\* the entries b..e-1 of a column (dim = 1) or of a row (dim = 2)
Line(v, dim, b, e, j) ==
  [w |-> v.w, ext |-> <<e - b>>, al |-> [k \in 1..(e - b) |-> v.al[Pos(v.ext, IF dim = 1 THEN <<b + k - 1, j>> ELSE <<j, b + k - 1>>)]]]
\* state: [n: shape of the container, c: its cells, v: the views]
Empty == [n |-> <<>>, c |-> <<>>, v |-> [s \in Slots |-> NoView]]
Src(a, k) == IF k = 0 THEN Box(a.n) ELSE a.v[k]
Ok(a, r) == [a |-> a, ok |-> TRUE, may |-> FALSE, r |-> r]
Bad(a) == [a |-> a, ok |-> FALSE, may |-> FALSE, r |-> <<>>]
SetV(a, s, x, w) == [a EXCEPT !.v[s] = [on |-> TRUE, w |-> w, ext |-> x.ext, al |-> x.al]]
Entries(a, s) == LET v == Src(a, s) IN [k \in 1..Len(v.al) |-> a.c[v.al[k]]]
RECURSIVE Assign(_, _, _, _)
Assign(c, to, from, k) == IF k > Len(to) THEN c ELSE Assign([c EXCEPT ![to[k]] = c[from[k]]], to, from, k + 1)
Post(a, e) ==
  CASE e.op = "new"   -> Ok([n |-> e.n, c |-> [k \in 1..Prod(e.n) |-> k], v |-> [s \in Slots |-> NoView]], <<>>)
    [] e.op = "full"  -> Ok(SetV(a, e.s, Src(a, e.src), e.w), <<>>)
    [] e.op = "sub"   -> LET x == Src(a, e.src) IN
         IF \A d \in 1..Len(x.ext) : RangeOk(x.ext[d], e.r[2 * d - 1], e.r[2 * d])
         THEN [Ok(SetV(a, e.s, Sub(x, e.r), e.w), <<>>) EXCEPT !.may = \E d \in 1..Len(x.ext) : Edge(x.ext[d], e.r[2 * d - 1], e.r[2 * d])]
         ELSE Bad(a)
    [] e.op = "line"  -> LET x == Src(a, e.src) IN
         IF RangeOk(x.ext[e.dim], e.r[1], e.r[2]) /\ 0 <= e.j /\ e.j < x.ext[3 - e.dim]
         THEN [Ok(SetV(a, e.s, Line(x, e.dim, e.r[1], e.r[2], e.j), e.w), <<>>) EXCEPT !.may = Edge(x.ext[e.dim], e.r[1], e.r[2])]
         ELSE Bad(a)
    [] e.op = "drop"  -> Ok([a EXCEPT !.v[e.s] = NoView], <<>>)
    [] e.op = "get"   -> LET x == Src(a, e.src) IN IF Inside(x.ext, e.ix) THEN Ok(a, <<a.c[x.al[Pos(x.ext, e.ix)]]>>) ELSE Bad(a)
    [] e.op = "put"   -> LET x == Src(a, e.src) IN IF Inside(x.ext, e.ix) THEN Ok([a EXCEPT !.c[x.al[Pos(x.ext, e.ix)]] = e.x], <<>>) ELSE Bad(a)
    [] e.op = "back"  -> LET x == Src(a, e.src) IN IF Len(x.al) > 0 THEN Ok(a, <<a.c[x.al[Len(x.al)]]>>) ELSE Bad(a)
    [] e.op = "putback" -> LET x == Src(a, e.src) IN IF Len(x.al) > 0 THEN Ok([a EXCEPT !.c[x.al[Len(x.al)]] = e.x], <<>>) ELSE Bad(a)
    \* elements copied in a new array
    [] e.op = "array" -> Ok(a, Entries(a, e.src))
    [] e.op = "copy"  -> LET x == a.v[e.s]  y == a.v[e.t] IN
         IF x.ext = y.ext THEN Ok([a EXCEPT !.c = Assign(a.c, y.al, x.al, 1)], <<>>) ELSE Bad(a)
    [] e.op = "dim"   -> LET x == Src(a, e.src) IN IF 0 <= e.d /\ e.d < Len(x.ext) THEN Ok(a, <<x.ext[e.d + 1]>>) ELSE Bad(a)
Disjoint(x, y) == {x.al[k] : k \in 1..Len(x.al)} \cap {y.al[k] : k \in 1..Len(y.al)} = {}
WellFormed(a) == \A s \in Slots : LET v == a.v[s] IN v.on =>
  /\ Len(v.al) = Prod(v.ext) /\ \A k \in 1..Len(v.al) : v.al[k] \in 1..Len(a.c)
  /\ Cardinality({v.al[k] : k \in 1..Len(v.al)}) = Len(v.al)
=============================================================================
