------------------------------ MODULE ShapedGen ------------------------------
EXTENDS Shaped, TLC, Json
CONSTANTS Kind, Shapes, MaxI, Lists
VARIABLES a, last
Tri == {<<0>>, <<1>>, <<2>>, <<3>>}
Tri4 == {<<0>>, <<1>>, <<3>>}
Bands == {<<3, 3, 1, 1>>, <<3, 4, 1, 0>>, <<4, 3, 0, 2>>, <<0, 0, 1, 1>>}
Box1 == {<<3>>}
Box2 == {<<2, 3>>}
Box3 == {<<2, 3, 2>>}
Box4 == {<<2, 1, 2, 2>>}
Fill(n) == [k \in 1..Count(Kind, n) |-> 10 + k]
Live(b) == {s \in Slots : b[s].on /\ ~b[s].lost}
Rk(b, s) == Len(Ext(Kind, b[s].n))
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}  live == Live(b) IN
  (IF Kind \in {"lower", "upper"} THEN [op : {"new"}, s : off] ELSE {})
  \cup {[op |-> "new_n", s |-> s, n |-> n, fill |-> Fill(n)] : s \in off, n \in Shapes}
  \cup (IF Kind \in {"lower", "upper"} THEN {[op |-> "new_n", s |-> s, n |-> <<-1>>, fill |-> <<>>] : s \in off} ELSE {})
  \cup (IF Kind = "box" THEN {[op |-> "new_val", s |-> s, n |-> n, x |-> 1] : s \in off, n \in Shapes} ELSE {})
  \cup (IF Lists THEN {[op |-> "new_list", s |-> s, n |-> n, fill |-> Fill(n)] : s \in off, n \in Shapes} ELSE {})
  \cup [op : {"new_copy", "new_move"}, s : off, t : live]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : live]
  \cup [op : {"destroy"}, s : on]
  \cup UNION {[op : {"get"}, s : {s}, ix : [1..Rk(b, s) -> {-1, 0, MaxI}]] : s \in live}
  \cup UNION {[op : {"get", "put"}, s : {s}, ix : {q \in [1..Rk(b, s) -> -1..MaxI] : Adm(Kind, b[s].n, q)}, x : {1}] : s \in live}
  \cup UNION {[op : {"dim"}, s : {s}, d : {0, Len(Dims(Kind, b[s].n)) - 1}] : s \in live}
  \cup (IF Kind = "box" /\ \E n \in Shapes : Len(n) = 1
        THEN [op : {"view"}, s : live, b : -1..MaxI, e : -1..MaxI] \cup [op : {"edit"}, s : live, b : 0..MaxI, e : 0..MaxI, i : {0, 1}, x : {2}]
        ELSE {})
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(a, Kind, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Shape(b) == [s \in Slots |-> <<b[s].on, b[s].lost, b[s].n, b[s].cap>>]
View == Shape(a)
Inv == WellFormed(a, Kind) /\ \A n \in Shapes : OneToOne(Kind, n)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
\* a write changes one element and no other
OneElement == [][ last'.op = "put" /\ ~last'.bad => LET u == a[last'.s].v w == a'[last'.s].v IN
                  Cardinality({k \in 1..Len(u) : u[k] /= w[k]}) <= 1 ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
