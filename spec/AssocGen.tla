------------------------------ MODULE AssocGen ------------------------------
EXTENDS Assoc, TLC, Json
CONSTANTS Kind, U
VARIABLES a, last
Lists == {<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>}
Dup(q) == Cardinality({q[i] : i \in 1..Len(q)}) /= Len(q)
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      m == Kind = "map"  vals == Kind /= "set" IN
  [op : {"new"}, s : off]
  \cup (IF Kind /= "set" THEN [op : {"new_n"}, s : off, n : {-1, 0, 1, 2}] ELSE {})
  \cup (IF Kind /= "set" THEN {[op |-> "new_list", s |-> s, ks |-> q, vs |-> [i \in 1..Len(q) |-> i]] : s \in off, q \in {r \in Lists : m \/ ~Dup(r)}} ELSE {})
  \cup [op : {"new_copy", "new_move"}, s : off, t : on]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : on]
  \cup [op : {"destroy"}, s : on]
  \cup [op : {"set"}, s : on, k : 1..U, x : {1}, w : 0..(IF vals THEN 3 ELSE 0)]
  \cup (IF vals THEN UNION {[op : {"set_self"}, s : {s}, k : 1..U, k2 : Keys(b[s].s)] : s \in on} ELSE {})
  \cup [op : {"set_io"}, s : on, k : 1..U, x : {1}, w : 0..(IF vals THEN 3 ELSE 0)]
  \cup [op : {"search"}, s : on, k : 1..U]
  \cup (IF vals THEN [op : {"put"}, s : on, k : 1..U, x : {1}] ELSE {})
  \cup (IF m THEN [op : {"val", "vald"}, s : on, k : 1..U, x : {1}] \cup [op : {"erase"}, s : on, k : 1..U]
          \cup [op : {"reserve"}, s : on, n : {-1, 0, 2, 7}] \cup [op : {"rehash"}, s : on] ELSE {})
  \cup (IF Kind /= "maparray" THEN [op : {"clear"}, s : on] ELSE {})
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(a, Kind, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Ks(s) == [i \in 1..Len(s) |-> s[i][1]]
Shape(b) == [s \in Slots |-> <<b[s].on, Ks(b[s].s)>>]
View == Shape(a)
Inv == WellFormed(a)
\* copies are independent: a step changes the slot it acts on, and a moved-from one
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
\* setting or erasing a key changes the association of this key only
OneKey == [][ last'.op \in {"set", "set_io", "put", "erase", "set_self"} /\ ~last'.bad =>
              LET u == a[last'.s].s  w == a'[last'.s].s IN
              /\ \A k \in (Keys(u) \cup Keys(w)) \ {last'.k} : k \in Keys(u) /\ k \in Keys(w) /\ Val(u, k) = Val(w, k)
              /\ SelectSeq(Ks(u), LAMBDA k : k /= last'.k) = SelectSeq(Ks(w), LAMBDA k : k /= last'.k) ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
