------------------------------ MODULE ArrayGen ------------------------------
(* Exhaustive exploration of the abstract array store with small constants,   *)
(* printing every transition for the behaviour generator.                     *)
EXTENDS Array, TLC, Json
CONSTANTS MaxLen, MaxCap, Vals, Excl, Als   \* Excl: operations the type does not have
          \* Als   \* Als: admissible alignment requests <<al, ar, am>>
VARIABLES a, last
AlsDef == {<<2, 0, 6>>, <<2, 2, 6>>}
Ix == -1 .. MaxLen
OpsIn(b) ==
  LET on == {s \in Slots : b[s].on}  off == Slots \ on
      \* fresh values are distinct so that a misplaced element is visible
      FillV(n) == [i \in 1..n |-> 10 + i]
      nonempty(s) == Len(b[s].v) > 0
  IN
  [op : {"new"}, s : off]
  \cup UNION {{[op |-> "new_n", s |-> s, n |-> n, fill |-> FillV(n)] : n \in -1..MaxLen} : s \in off}
  \cup [op : {"new_val", "new_emp"}, s : off, n : {0, MaxLen}, x : Vals]
  \cup UNION {{[op |-> "new_list", s |-> s, vals |-> FillV(n)] : n \in {0, 2}} : s \in off}
  \cup UNION {{[op |-> "new_alv", s |-> s, n |-> n, x |-> 1, al |-> q[1], ar |-> q[2], am |-> q[3]] : n \in 1..2} : s \in off, q \in Als}
  \cup [op : {"new_copy", "new_move"}, s : off, t : on]
  \cup [op : {"copy_assign", "move_assign"}, s : on, t : on]
  \cup [op : {"destroy"}, s : on]
  \cup [op : {"get"}, s : on, i : Ix]
  \cup [op : {"put"}, s : on, i : Ix, x : Vals]
  \cup [op : {"back"}, s : on]
  \cup [op : {"put_back", "fill"}, s : on, x : Vals]
  \cup UNION {{[op |-> "resize", s |-> s, n |-> n, fill |-> FillV(IF n > Len(b[s].v) THEN n - Len(b[s].v) ELSE 0)] : n \in -1..MaxLen} : s \in on}
  \cup [op : {"resize_val", "resize_emp"}, s : on, n : 0..MaxLen, x : Vals]
  \cup UNION {[op : {"resize_self"}, s : {s}, n : 0..MaxLen, i : 0..(Len(b[s].v) - 1)] : s \in {s \in on : nonempty(s)}}
  \cup [op : {"reserve"}, s : on, n : {-1, 0, 2, MaxCap}]
  \cup UNION {[op : {"append", "append_mv", "append_emp"}, s : {s}, x : Vals] : s \in {s \in on : Len(b[s].v) < MaxLen}}
  \cup UNION {[op : {"append_self"}, s : {s}, i : 0..(Len(b[s].v) - 1)] : s \in {s \in on : nonempty(s) /\ Len(b[s].v) < MaxLen}}
  \cup UNION {{[op |-> "view", s |-> s, b |-> lo, e |-> hi] : lo \in 0..MaxLen, hi \in 0..MaxLen} : s \in on}
  \cup UNION {{[op |-> "edit", s |-> s, b |-> lo, e |-> hi, i |-> 0, x |-> 2] : lo \in 0..1, hi \in 1..MaxLen} : s \in on}
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in {q \in OpsIn(a) : q.op \notin Excl} :
          LET p == Post(a, e) IN
          /\ a' = p.a
          /\ \A s \in Slots : p.a[s].cap <= MaxCap
          /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
(* Values never influence control, so states are identified by their shape:    *)
(* the generator replaces the values by fresh ones.  FullView keeps them.      *)
Shape(b) == [s \in Slots |-> <<b[s].on, Len(b[s].v), b[s].cap, b[s].al, b[s].ar, b[s].am>>]
View == Shape(a)
FullView == a
Inv == WellFormed(a)
(* properties of the machine itself: an operation touches only the slots it names, *)
(* a contract violation changes nothing, growth never loses the prefix             *)
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
Keep  == [][ last'.op \in {"resize", "resize_val", "resize_emp", "reserve", "append", "append_mv", "append_emp", "append_self"} =>
             LET u == a[last'.s].v  w == a'[last'.s].v  m == IF Len(u) < Len(w) THEN Len(u) ELSE Len(w)
             IN SubSeq(u, 1, m) = SubSeq(w, 1, m) ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> Shape(a), o |-> last', t |-> Shape(a')]))
=============================================================================
