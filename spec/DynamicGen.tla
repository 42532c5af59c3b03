----------------------------- MODULE DynamicGen -----------------------------
EXTENDS Dynamic, TLC, Json
CONSTANTS MaxNodes, Leaves, Wide
VARIABLES a, last
Leaf(x) == [t |-> x, n |-> (CASE x = "int" -> <<7, 0, 0, 0>> [] x = "str" -> <<97, 98>> [] x = "af64" -> <<0, 0, 0, 16368>> [] x = "a2f64" -> <<1, 1, 0, 0, 0, 16368>> [] OTHER -> <<>>), k |-> <<>>, c |-> <<>>]
Vals == {Leaf(x) : x \in Leaves}
RECURSIVE Paths(_)
Paths(v) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(v.c[i])} : i \in 1..Len(v.c)}
OpsIn(b) ==
  LET off == {s \in Slots : ~b[s].on}  on == {s \in Slots : b[s].on}
      Pl == UNION {{[s |-> s, q |-> q] : q \in Paths(b[s].v)} : s \in on}
      Sz(x) == Count(At(b[x.s].v, x.q))
      Room(x) == MaxNodes - Count(b[x.s].v)
      T(x) == At(b[x.s].v, x.q).t
  IN [op : {"new"}, s : off] \cup [op : {"new_val"}, s : off, v : Vals, w : {0, 1}]
  \cup {[op |-> o, s |-> s, t |-> y.s, p |-> y.q] : o \in {"new_copy", "new_move"}, s \in off, y \in Pl}
  \cup {[op |-> "set_val", s |-> x.s, q |-> x.q, v |-> v, w |-> w] : x \in Pl, v \in Vals, w \in {0, 1}}
  \cup {[op |-> o, s |-> z[1].s, q |-> z[1].q, t |-> z[2].s, p |-> z[2].q] : o \in {"copy_assign", "move_assign"},
         z \in {y \in Pl \X Pl : Sz(y[2]) - Sz(y[1]) <= Room(y[1]) /\ ~Inside(y[1].s, y[1].q, y[2].s, y[2].q)}}
  \cup {[op |-> "copy_assign", s |-> z[1].s, q |-> z[1].q, t |-> z[2].s, p |-> z[2].q] :
         z \in {y \in Pl \X Pl : Sz(y[2]) - Sz(y[1]) <= Room(y[1])}}
  \cup {[op |-> "str_assign", s |-> z[1].s, q |-> z[1].q, t |-> z[2].s, p |-> z[2].q] : z \in {y \in Pl \X Pl : T(y[2]) = "str"}}
  \cup {[op |-> "append", s |-> x.s, q |-> x.q, v |-> v, w |-> w] : x \in {y \in Pl : T(y) = "arr" /\ Room(y) > 0}, v \in Vals, w \in {0, 1}}
  \cup {[op |-> "append_part", s |-> z[1].s, q |-> z[1].q, t |-> z[2].s, p |-> z[2].q] :
         z \in {y \in Pl \X Pl : T(y[1]) = "arr" /\ Sz(y[2]) <= Room(y[1])}}
  \cup {[op |-> "key", s |-> x.s, q |-> x.q, key |-> key, v |-> v, w |-> w] : x \in {y \in Pl : T(y) \in {"map", "marr"} /\ Room(y) > 0}, key \in {1, 101}, v \in Vals, w \in {0, 1}}
  \cup (IF Wide THEN {[op |-> "is", s |-> x.s, q |-> x.q] : x \in Pl} \cup {[op |-> "access", s |-> x.s, q |-> x.q, ty |-> i] : x \in Pl, i \in {9, 12, 13}} ELSE {})
  \cup [op : {"destroy"}, s : on]
Init == a = AllOff /\ last = [op |-> "init"]
Next == \E e \in OpsIn(a) : LET p == Post(a, e) IN a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
View == a
Inv == \A s \in Slots : Sound(a[s].v) /\ Count(a[s].v) <= MaxNodes
\* only the destination changes, and the source of a move
Frame == [][ \A s \in Slots : (a'[s] /= a[s]) => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign"})) ]_<<a, last>>
\* after an assignment the destination is what the source was
Assigned == [][ last'.op \in {"copy_assign", "new_copy"} =>
   (IF last'.op = "new_copy" THEN a'[last'.s].v ELSE At(a'[last'.s].v, last'.q)) = At(a[last'.t].v, last'.p) ]_<<a, last>>
\* nothing is lost or duplicated by a move that is not into the source's own tree
Conserved == [][ (last'.op = "new_move" \/ (last'.op = "move_assign" /\ last'.s /= last'.t)) =>
   At(a'[last'.t].v, last'.p) = Void ]_<<a, last>>
Abort == [][ last'.bad => a' = a ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> a, o |-> last', t |-> a']))
=============================================================================
