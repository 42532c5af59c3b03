------------------------------ MODULE StringGen ------------------------------
(* The shapes of the strings around the frontier between the strings which are stored
   in the object and those on the heap: every length of Lens, storage with and without
   something reserved, both kinds of ascii compatible strings. *)
EXTENDS String, TLC, Json
CONSTANTS K, Lens, Sizes, Reserved
VARIABLES a, last
L == [n \in Sizes |-> [i \in 1..n |-> 97]]
Fits(b, s, n) == (Len(b[s].v) + n) \in Lens
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      Ap == [s : on, n : Sizes] IN
  [op : {"new"}, s : off]
  \cup {[op |-> "new_bytes", s |-> s, ty |-> t, x |-> L[n]] : s \in off, t \in {0, 1}, n \in Sizes \cap Lens}
  \cup [op : {"new_copy", "new_move"}, s : off, t : on]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : on]
  \cup [op : {"destroy"}, s : on]
  \cup {[op |-> "append_self", s |-> s] : s \in on} \cup {[op |-> "append_other", s |-> s, t |-> t] : s \in on, t \in on}
  \cup [op : {"reserve"}, s : on, n : Reserved \cup {-1}]
  \cup {[op |-> "append_char", s |-> s, c |-> 97] : s \in {t \in on : Fits(b, t, 1)}}
  \cup {[op |-> "append_char", s |-> s, c |-> 200] : s \in on}
  \cup {[op |-> "append_rune", s |-> s, u |-> u] : s \in {t \in on : Fits(b, t, 1)}, u \in {98, 56320}}
  \cup {[op |-> "append_nchar", s |-> q.s, n |-> q.n, c |-> 97] : q \in {q \in Ap : Fits(b, q.s, q.n)}}
  \cup {[op |-> "append_nrune", s |-> q.s, n |-> q.n, u |-> 97] : q \in {q \in Ap : Fits(b, q.s, q.n)}}
  \cup {[op |-> "append_bytes", s |-> q.s, ty |-> t, x |-> L[q.n]] : q \in {q \in Ap : Fits(b, q.s, q.n)}, t \in {0, 1}}
  \cup (IF K = 16 THEN {} ELSE
       {[op |-> "clear", s |-> s] : s \in on}
  \cup {[op |-> "assign_lit", s |-> s, x |-> L[n]] : s \in on, n \in Sizes \cap Lens}
  \cup {[op |-> "append_views", s |-> s, w |-> <<t, 0, Len(b[t].v)>>] : s \in on, t \in on}
  \cup
       {[op |-> "insert_char", s |-> q.s, i |-> i, c |-> 97] : q \in {q \in Ap : q.n = 1 /\ Fits(b, q.s, 1)}, i \in {0, -1, 30}}
  \cup {[op |-> "insert_bytes", s |-> q.s, i |-> i, ty |-> 1, x |-> L[q.n]] : q \in {q \in Ap : Fits(b, q.s, q.n)}, i \in {0, 30}}
  \cup {[op |-> "insert_nchar", s |-> q.s, i |-> i, c |-> 98, n |-> q.n] : q \in {q \in Ap : Fits(b, q.s, q.n)}, i \in {0}}
  \cup {[op |-> "insert_view", s |-> s, i |-> 0, t |-> t, p |-> 0, q |-> Len(b[t].v)] : s \in on, t \in on}
  \cup [op : {"substring", "subview"}, s : on, p : {0, 1, 22}, q : {0, 22, 23}])
Keep(b) == \A s \in Slots : Len(b[s].v) \in Lens
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(K, a, e) IN Keep(p.a) /\ a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Shape(b) == [s \in Slots |-> <<b[s].on, Len(b[s].v), b[s].ty, b[s].min > Small(K)>>]
View == Shape(a)
Inv == WellFormed(a)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
