----------------------------- MODULE BoundsGen -----------------------------
(* Every access, admissible or not, to objects of the given shapes.  Big indices stand for the
   extreme values of the index type. *)
EXTENDS Bounds, TLC, Json
CONSTANTS Kind, Shapes, Has
VARIABLES o, last
Big == {1000000000, -1000000000, 999999999, -999999999}
Ext1(kind, n) == CASE kind = "rag" -> <<Len(n) - 1, 3>> [] Flat(kind) -> n [] OTHER -> Ext(kind, n)
Lo1(kind, n) == CASE kind = "rag" -> <<0, 0>> [] Flat(kind) -> <<0>> [] OTHER -> Lo(kind, n)
\* values around the admissible ones of a dimension
Near(l, m) == (l - 2)..(l + m + 1)
Ixs(n) == LET m == Ext1(Kind, n)  l == Lo1(Kind, n)  d == 1..Len(m) IN
  {x \in [d -> UNION {Near(l[k], m[k]) : k \in d}] : \A k \in d : x[k] \in (IF Len(m) > 2 THEN (l[k] - 1)..(l[k] + m[k]) ELSE Near(l[k], m[k]))}
  \cup {[k \in d |-> IF k = j THEN b ELSE l[k]] : j \in d, b \in Big}
  \cup {[k \in d |-> IF k = j THEN b ELSE l[k] + m[k] - 1] : j \in d, b \in Big}
Rgs(n) == {<<b, e>> : b \in -1..(n + 1), e \in -1..(n + 1)} \cup {<<0, c>> : c \in Big} \cup {<<c, 0>> : c \in Big} \cup {<<c, c>> : c \in Big}
Few(n) == {<<0, n>>, <<0, n + 1>>, <<-1, n>>, <<n + 1, n + 1>>, <<n, n - 1>>, <<-1, -1>>} \cup {<<b, e>> : b \in 0..n, e \in 0..n}
FillOf(n) == [k \in 1..Size(Kind, n) |-> 10 + k]
Neg(n) == {[k \in 1..Len(n) |-> IF k = j THEN -b ELSE n[k]] : j \in 1..Len(n), b \in {1, 2}} \cup {[k \in 1..Len(n) |-> IF k = j THEN -1000000000 ELSE n[k]] : j \in 1..Len(n)}
WX(S) == UNION {{e @@ [w |-> FALSE, x |-> 1], e @@ [w |-> TRUE, x |-> 5]} : e \in S}
RO(S) == {e @@ [w |-> FALSE, x |-> 1] : e \in S}
If(f, S) == IF f \in Has THEN S ELSE {}
OpsIn ==
  IF ~o.on THEN {[op |-> "make", how |-> h, n |-> n, fill |-> FillOf(n)] : h \in 0..3, n \in Shapes}
                \cup (IF Kind \in {"rag", "slots"} THEN {} ELSE {[op |-> "make", how |-> h, n |-> n, fill |-> <<>>] : h \in 0..3, n \in UNION {Neg(n) : n \in Shapes}})
  ELSE LET n == o.n IN
  If("elem", WX([op : {"elem"}, ix : Ixs(n), raw : {FALSE}]))
  \cup If("elemro", RO([op : {"elem"}, ix : Ixs(n), raw : {FALSE}]))
  \cup If("first", WX({[op |-> "first"]}))
  \cup If("last", WX({[op |-> "last"]}))
  \cup If("pop", [op : {"pop"}, front : {TRUE, FALSE}])
  \cup If("dim", [op : {"dim"}, d : -1..Len(n) \cup Big])
  \cup If("room", [op : {"room"}, d : -1..Len(n) \cup Big, what : {"capacity", "stride"} \cap Has])
  \cup If("line1", WX([op : {"line"}, d : {1}, j : -2..(n[2] + 1) \cup Big]))
  \cup If("line2", WX([op : {"line"}, d : {2}, j : -2..(n[1] + 1) \cup Big]))
  \cup If("lv1", WX([op : {"lineview"}, d : {1}, j : -1..n[2] \cup Big, rg : Few(n[1])]))
  \cup If("lv2", RO([op : {"lineview"}, d : {2}, j : -1..n[1] \cup Big, rg : Few(n[2])]))
  \cup If("range", WX([op : {"range"}, rg : Rgs(n[1])]))
  \cup If("rangero", RO([op : {"range"}, rg : Rgs(n[1])]))
  \cup If("block", WX({[op |-> "block", rg |-> r \o q] : r \in Few(n[1]), q \in Few(n[2])}))
  \cup If("resize", {[op |-> "resize", n |-> m, fill |-> FillOf(m)] : m \in Shapes} \cup {[op |-> "resize", n |-> m, fill |-> <<>>] : m \in Neg(n)})
  \cup If("reserve", {[op |-> "reserve", n |-> m] : m \in Shapes \cup Neg(n)})
  \cup If("insert", [op : {"insert"}, i : Near(0, n[1]) \cup Big, k : {-1, 0, 1, 2}, x : {35}])
  \cup If("cut", [op : {"cut"}, i : Near(0, n[1] + 1) \cup Big, front : {TRUE, FALSE}])
  \cup If("fromend", [op : {"fromend"}, i : Near(0, n[1]) \cup Big])
  \cup If("asks", [op : {"asks"}, i : Near(0, n[1]) \cup Big, what : 0..4])
  \cup If("noslot", [op : {"noslot"}, what : 0..3, past : {TRUE, FALSE}])
Init == o = None /\ last = [op |-> "init"]
Next == \E e \in OpsIn : (e.op = "insert" => Len(o.v) < 8) /\ LET p == Post1(o, Kind, e) IN ~p.may /\ o' = p.o /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<o, last>>
View == <<o.on, o.n>>
Inv == o.on => NonNeg(o.n) /\ Len(o.v) = Size(Kind, o.n)
\* what is not admissible changes nothing; what is admissible changes the cells it names, and the shape only on purpose
Frame == [][last'.bad => o' = o]_<<o, last>>
Single == [][last'.op = "elem" /\ ~last'.bad => o'.n = o.n /\ \A k \in 1..Len(o.v) : o'.v[k] = o.v[k] \/ k = At(Kind, o.n, last'.ix)]_<<o, last>>
Pure == [][last'.op \in {"dim", "room", "cut", "fromend", "asks", "noslot", "reserve"} => o' = o]_<<o, last>>
Emit == PrintT("@@" \o ToJson([f |-> View, o |-> last', t |-> <<o'.on, o'.n>>]))
B1 == {<<0>>, <<1>>, <<3>>}
B2 == {<<0, 2>>, <<2, 3>>, <<3, 1>>}
B3 == {<<2, 3, 2>>, <<1, 2, 3>>}
B3V == {<<2, 3, 2>>}
B4 == {<<2, 1, 3, 2>>}
S1 == {<<1>>, <<3>>, <<4>>}
S2 == {<<2, 3>>, <<3, 2>>}
S3 == {<<2, 3, 2>>}
S4 == {<<2, 3, 2, 3>>}
Tri == {<<0>>, <<1>>, <<3>>}
Bands == {<<3, 3, 1, 1>>, <<3, 4, 1, 0>>, <<4, 3, 0, 2>>}
Rags == {<<3, 2, 0, 1>>, <<4, 1, 3>>}
Q == {<<0>>, <<1>>, <<4>>}
Sl == {<<0>>, <<1>>, <<5>>}
=============================================================================
