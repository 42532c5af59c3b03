------------------------------ MODULE DequeGen ------------------------------
EXTENDS Deque, TLC, Json
CONSTANT Caps
VARIABLES a, last
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      room == {s \in on : Len(b[s].v) < b[s].cap}
      some == {s \in room : Len(b[s].v) > 0}
      full == {s \in on : b[s].cap > 0 /\ Len(b[s].v) = b[s].cap} IN
  [op : {"new"}, s : off] \cup [op : {"new_n"}, s : off, n : Caps \cup {-1}]
  \cup [op : {"new_copy", "new_move"}, s : off, t : on]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : on]
  \cup [op : {"destroy"}, s : on]
  \cup [op : {"reserve"}, s : {s \in on : b[s].cap = 0}, n : Caps]
  \cup [op : {"push_front", "push_back"}, s : room, x : {1}, w : {0, 1}]
  \cup [op : {"push_front_self", "push_back_self"}, s : some]
  \cup [op : {"full"}, s : full]
  \cup [op : {"pop_front", "pop_back", "front", "back"}, s : on]
  \cup [op : {"put_front", "put_back"}, s : on, x : {1}]
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(a, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Shape(b) == [s \in Slots |-> <<b[s].on, Len(b[s].v), b[s].cap, b[s].f>>]
View == Shape(a)
Inv == WellFormed(a)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
