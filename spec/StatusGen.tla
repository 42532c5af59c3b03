------------------------------ MODULE StatusGen ------------------------------
EXTENDS Status, TLC, Json
CONSTANTS Kind, MaxRec
VARIABLES a, last
Vals == {[ty |-> "int", n |-> <<5, 0, 0, 0>>], [ty |-> "str", n |-> <<97>>]}
GenKeys == 1..2
InfoOps(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      live == {s \in on : ~b[s].lost}  room == {s \in live : Len(b[s].q) < MaxRec}
      strs == {y \in room \X GenKeys : Find(b[y[1]].q, y[2]).t = "str"}
  IN [op : {"new"}, s : off] \cup [op : {"new_copy", "new_move"}, s : off, t : live]
  \cup [op : {"copy_assign"}, s : on, t : live] \cup {x \in [op : {"move_assign"}, s : on, t : live] : TRUE}
  \cup [op : {"clear", "destroy"}, s : on]
  \cup {[op |-> "set", s |-> s, k |-> k, ty |-> v.ty, n |-> v.n] : s \in room, k \in GenKeys, v \in Vals}
  \cup {[op |-> "set_own", s |-> y[1], k |-> k, k2 |-> y[2]] : y \in strs, k \in GenKeys}
  \cup {[op |-> "set_named", s |-> y[1], k2 |-> y[2], ty |-> "int", n |-> <<6, 0, 0, 0>>] : y \in strs}
  \cup [op : {"get"}, s : live, k : {1, 2, 3}, ty : {"int", "str", "f64"}]
Errs == {5, 1 * 256 + 9}
StatusOps(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      live == {s \in on : ~b[s].lost} IN
  [op : {"new"}, s : off] \cup {[op |-> "new_move", s |-> s, t |-> t] : s \in off, t \in {u \in live : b[u].chk}}
  \cup {[op |-> "move_assign", s |-> s, t |-> t] : s \in on, t \in {u \in live : b[u].chk /\ \A w \in {u} : TRUE} }
  \cup [op : {"set_ok", "drop"}, s : on] \cup [op : {"set_error"}, s : on, err : Errs]
  \cup {[op |-> "set", s |-> s, k |-> 1, ty |-> "int", n |-> <<5, 0, 0, 0>>] : s \in {u \in live : Len(b[u].q) < MaxRec}}
  \cup [op : {"source"}, s : {u \in live : Len(b[u].q) = 0}, n : {<<97>>}, line : {3}]
  \cup [op : {"get"}, s : {u \in live : ~b[u].ok}, k : {1, 2}, ty : {"int", "str"}]
  \cup [op : {"rearm", "ok", "ignore", "abort_on_error"}, s : live]
  \cup [op : {"error"}, s : {u \in live : ~b[u].ok}]
OpsIn(b) == IF Kind = "info" THEN InfoOps(b) ELSE {o \in StatusOps(b) : ~(o.op = "move_assign" /\ o.s = o.t)}
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(Kind, a, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
View == a
\* an outcome is looked at exactly when it is acted on
Discipline == [][ Kind = "status" => \A s \in Slots : (a[s].on /\ a[s].chk /\ ~(a'[s].on /\ a'[s].chk)) =>
   last'.op \in {"ok", "ignore", "abort_on_error", "new_move", "move_assign"} ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Inv == \A s \in Slots : Len(a[s].q) <= MaxRec + 1 /\ (Kind = "status" => (a[s].q /= <<>> => a[s].on))
Emit == PrintT("@@" \o ToJson([f |-> a, o |-> last', t |-> a']))
=============================================================================
