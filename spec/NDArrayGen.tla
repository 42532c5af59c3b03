----------------------------- MODULE NDArrayGen -----------------------------
EXTENDS NDArray, TLC, Json
CONSTANTS Rank, MaxN, MaxCap, HasVal, HasFill, Als, Slim
VARIABLES a, last
Shapes == [1..Rank -> 0..MaxN]
\* in the slim configuration, only a representative set of target shapes
Targets == IF Slim THEN {n \in Shapes : Cardinality({n[d] : d \in 1..Rank} \ {0, MaxN}) <= 1 /\ Cardinality({d \in 1..Rank : n[d] = 0}) <= 1} ELSE Shapes
FillV(n) == [k \in 1..Prod(n) |-> 10 + k]
NegShape == [d \in 1..Rank |-> IF d = Rank THEN -1 ELSE 1]
OpsIn(b) ==
  LET on == {s \in Slots : b[s].on}  off == Slots \ on
      ixs(s) == [1..Rank -> {-1, 0, MaxN}] IN
  [op : {"new"}, s : off]
  \cup {[op |-> "new_n", s |-> s, n |-> n, fill |-> FillV(n)] : s \in off, n \in Targets}
  \cup {[op |-> "new_n", s |-> s, n |-> NegShape, fill |-> <<>>] : s \in off}
  \cup {[op |-> "new_val", s |-> s, n |-> n, x |-> 1] : s \in off, n \in {n \in Targets : n[1] = MaxN}}
  \cup {[op |-> "new_alv", s |-> s, n |-> n, x |-> 1, al |-> q[1], ar |-> q[2], am |-> q[3]] : s \in off, n \in {n \in Targets : Prod(n) > 0}, q \in Als}
  \cup [op : {"new_copy", "new_move"}, s : off, t : on]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : on]
  \cup [op : {"destroy"}, s : on]
  \cup UNION {[op : {"get"}, s : {s}, ix : ixs(s)] : s \in on}
  \cup [op : {"dim"}, s : on, d : {-1, 0, Rank - 1, Rank}]
  \cup UNION {{[op |-> "put", s |-> s, ix |-> Unlin(b[s].n, k), x |-> 1] : k \in {1, Prod(b[s].n)} \ {0}} : s \in {s \in on : Prod(b[s].n) > 0}}
  \cup (IF HasFill THEN [op : {"fill"}, s : on, x : {1}] ELSE {})
  \cup {[op |-> "resize", s |-> s, n |-> n, fill |-> FillV(n)] : s \in on, n \in Targets}
  \cup (IF HasVal THEN {[op |-> o, s |-> s, n |-> n, x |-> 1] : s \in on, n \in Targets, o \in {"resize_val", "resize_emp"}} ELSE {})
  \cup (IF HasVal THEN UNION {{[op |-> "resize_self", s |-> s, n |-> n, ix |-> Zero(Rank)] : n \in Targets} : s \in {s \in on : Prod(b[s].n) > 0}} ELSE {})
  \cup {[op |-> "reserve", s |-> s, n |-> n] : s \in on, n \in {n \in Targets : \E d \in 1..Rank : n[d] = MaxN} \cup {NegShape}}
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e0 \in OpsIn(a) :
          LET e == e0 @@ [rk |-> Rank]  p == Post(a, e) IN
          /\ a' = p.a
          /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
Shape(b) == [s \in Slots |-> <<b[s].on, b[s].n, b[s].cap, b[s].al, b[s].ar, b[s].am>>]
View == Shape(a)
Inv == WellFormed(a)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
\* resizing and reserving preserve every element whose index stays in range
Overlap == [][ last'.op \in {"resize", "resize_val", "resize_emp", "reserve"} /\ ~last'.bad =>
              LET u == a[last'.s]  w == a'[last'.s] IN
              \A k \in 1..Prod(u.n) : LET x == Unlin(u.n, k) IN InBox(w.n, x) => w.v[Lin(w.n, x)] = u.v[k] ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
