------------------------------ MODULE TreeGen ------------------------------
EXTENDS Tree, TLC, Json
CONSTANTS N, MaxDepth, MaxNodes
VARIABLES a, last
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}  live == {s \in on : ~b[s].lost} IN
  [op : {"new"}, s : off] \cup [op : {"new_depth"}, s : off, d : {0, 2}]
  \cup [op : {"new_copy", "new_move"}, s : off, t : live]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : live]
  \cup [op : {"destroy"}, s : on]
  \cup UNION {[op : {"set"}, s : {s}, p : DOMAIN b[s].t, x : {1}] : s \in live}
  \cup UNION {[op : {"parent"}, s : {s}, p : DOMAIN b[s].t] : s \in live}
  \cup UNION {[op : {"add"}, s : {s}, p : {p \in DOMAIN b[s].t : Len(p) < MaxDepth}, i : -1..N] : s \in {z \in live : Cardinality(DOMAIN b[z].t) < MaxNodes}}
  \cup UNION {[op : {"has"}, s : {s}, p : DOMAIN b[s].t, i : -1..N] : s \in live}
  \cup UNION {UNION {[op : {"child"}, s : {s}, p : {p}, i : IF Kids(b[s].t, p, N) = {} THEN {0} ELSE Kids(b[s].t, p, N)] : p \in DOMAIN b[s].t} : s \in live}
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(a, N, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Shape(b) == [s \in Slots |-> <<b[s].on, b[s].lost, DOMAIN b[s].t>>]
View == Shape(a)
Inv == WellFormed(a, N)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
\* growing the tree changes no node which is there
Grow == [][ last'.op = "add" /\ ~last'.bad => \A p \in DOMAIN a[last'.s].t : a'[last'.s].t[p] = a[last'.s].t[p] ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
