------------------------------- MODULE Bounds -------------------------------
(* Checked builds: one object, every access to it.  An access is made iff its arguments are
   admissible; otherwise it stops (abort) and nothing has changed.
   kind: the shape rule of Shaped (box, lower, upper, tri, band) or
     rag   rows of given lengths: n = <<number of columns>> \o lengths  (il::SparseMatrixCSR)
     seq   a sequence reached at its ends (il::Deque)
     text  a string of ASCII characters
     slots the elements of an associative container, numbered in iteration order *)
EXTENDS Shaped
RagIx(n) == UNION {{<<i, k>> : k \in 0..(n[i + 2] - 1)} : i \in 0..(Len(n) - 2)}
RagBefore(n, i) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE n[j + 1] + S(j - 1) IN S(i)
Flat(kind) == kind \in {"seq", "text", "slots"}
\* the shape rule kind of an index tuple
Inside(kind, n, x) ==
  CASE kind = "rag" -> Len(x) = 2 /\ 0 <= x[1] /\ x[1] < Len(n) - 1 /\ 0 <= x[2] /\ x[2] < n[x[1] + 2]
    [] Flat(kind) -> Len(x) = 1 /\ 0 <= x[1] /\ x[1] < n[1]
    [] OTHER -> Adm(kind, n, x)
At(kind, n, x) == CASE kind = "rag" -> RagBefore(n, x[1]) + x[2] + 1
                    [] Flat(kind) -> x[1] + 1
                    [] OTHER -> Pos(kind, n, x)
Size(kind, n) == CASE kind = "rag" -> RagBefore(n, Len(n) - 1)
                   [] Flat(kind) -> n[1]
                   [] OTHER -> Count(kind, n)
None == [on |-> FALSE, n |-> <<>>, v |-> <<>>]
Obj1(n, v) == [on |-> TRUE, n |-> n, v |-> v]
Res(o, r) == [ok |-> TRUE, may |-> FALSE, o |-> o, r |-> r]
No(o) == [ok |-> FALSE, may |-> FALSE, o |-> o, r |-> <<>>]
\* ranges: an empty one at the very end is not specified, except in strings
RangeIn(n, b, e) == 0 <= b /\ b <= e /\ e <= n
Edge(n, b, e) == b = n /\ e = n
Span(b, e) == [k \in 1..(e - b) |-> b + k - 1]
\* entries of a block, first index fastest
Block(n, v, r) == LET m == <<r[2] - r[1], r[4] - r[3]>> IN
  [k \in 1..(m[1] * m[2]) |-> At("box", n, <<r[1] + ((k - 1) % m[1]), r[3] + ((k - 1) \div m[1])>>)]
\* column (d = 1) or row (d = 2) number j, entries b..e-1
Line(n, d, j, b, e) == [k \in 1..(e - b) |-> At("box", n, IF d = 1 THEN <<b + k - 1, j>> ELSE <<j, b + k - 1>>)]
Read(o, cells) == [k \in 1..Len(cells) |-> o.v[cells[k]]]
Fill(o, cells, x) == [o EXCEPT !.v = [k \in 1..Len(o.v) |-> IF \E j \in 1..Len(cells) : cells[j] = k THEN x ELSE o.v[k]]]
Use(o, e, cells) == IF e.w THEN Res(Fill(o, cells, e.x), <<>>) ELSE Res(o, Read(o, cells))
When(c, r, o) == IF c THEN r ELSE No(o)
Post1(o, kind, e) ==
  CASE e.op = "make"  -> When(NonNeg(e.n), Res(Obj1(e.n, e.fill), <<>>), None)
    [] e.op = "elem"  -> IF Inside(kind, o.n, e.ix) THEN Use(o, e, <<At(kind, o.n, e.ix)>>) ELSE No(o)
    [] e.op = "first" -> IF Len(o.v) > 0 THEN Use(o, e, <<1>>) ELSE No(o)
    [] e.op = "last"  -> IF Len(o.v) > 0 THEN Use(o, e, <<Len(o.v)>>) ELSE No(o)
    [] e.op = "pop"   -> IF Len(o.v) > 0 THEN Res(Obj1(<<Len(o.v) - 1>>, IF e.front THEN Tail(o.v) ELSE SubSeq(o.v, 1, Len(o.v) - 1)), <<>>) ELSE No(o)
    [] e.op = "dim"   -> IF 0 <= e.d /\ e.d < Len(Dims(kind, o.n)) THEN Res(o, <<Dims(kind, o.n)[e.d + 1]>>) ELSE No(o)
    \* capacity and memory stride: any value, but of an existing dimension only
    [] e.op = "room"  -> IF 0 <= e.d /\ e.d < Len(o.n) THEN Res(o, <<>>) ELSE No(o)
    \* pointer to the beginning of a column (d = 1) or of a row (d = 2)
    [] e.op = "line"  -> IF 0 <= e.j /\ e.j < o.n[3 - e.d] THEN Use(o, e, Line(o.n, e.d, e.j, 0, o.n[e.d])) ELSE No(o)
    [] e.op = "lineview" -> IF 0 <= e.j /\ e.j < o.n[3 - e.d] /\ RangeIn(o.n[e.d], e.rg[1], e.rg[2])
         THEN [Use(o, e, Line(o.n, e.d, e.j, e.rg[1], e.rg[2])) EXCEPT !.may = Edge(o.n[e.d], e.rg[1], e.rg[2])] ELSE No(o)
    [] e.op = "range" -> IF RangeIn(o.n[1], e.rg[1], e.rg[2])
         THEN [Use(o, e, [k \in 1..(e.rg[2] - e.rg[1]) |-> e.rg[1] + k]) EXCEPT !.may = kind # "text" /\ Edge(o.n[1], e.rg[1], e.rg[2])] ELSE No(o)
    [] e.op = "block" -> IF RangeIn(o.n[1], e.rg[1], e.rg[2]) /\ RangeIn(o.n[2], e.rg[3], e.rg[4])
         THEN [Use(o, e, Block(o.n, o.v, e.rg)) EXCEPT !.may = Edge(o.n[1], e.rg[1], e.rg[2]) \/ Edge(o.n[2], e.rg[3], e.rg[4])] ELSE No(o)
    [] e.op = "resize"  -> When(NonNeg(e.n), Res(Obj1(e.n, e.fill), <<>>), o)
    [] e.op = "reserve" -> When(NonNeg(e.n), Res(o, <<>>), o)
    \* strings
    [] e.op = "insert"  -> When(0 <= e.i /\ e.i <= o.n[1] /\ e.k >= 0,
                                Res(Obj1(<<o.n[1] + e.k>>, SubSeq(o.v, 1, e.i) \o Rep(e.k, e.x) \o SubSeq(o.v, e.i + 1, Len(o.v))), <<>>), o)
    [] e.op = "cut"     -> When(0 <= e.i /\ e.i <= o.n[1], Res(o, IF e.front THEN SubSeq(o.v, e.i + 1, Len(o.v)) ELSE SubSeq(o.v, 1, e.i)), o)
    [] e.op = "fromend" -> IF 0 <= e.i /\ e.i < o.n[1] THEN Res(o, <<o.v[Len(o.v) - e.i]>>) ELSE No(o)
    [] e.op = "asks"    -> IF 0 <= e.i /\ e.i < o.n[1] THEN Res(o, <<>>) ELSE No(o)
    \* associative containers: the slot of an absent key, the slot past the last element
    [] e.op = "noslot"  -> No(o)
=============================================================================
