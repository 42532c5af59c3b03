--------------------------- MODULE ValueStoreGen ---------------------------
(* Values are the histories that made them, so that two slots are equal only when the
   specification forces them to be.                                                  *)
EXTENDS ValueStore, TLC, Json
CONSTANTS Codes, Depth, Left      \* Left: "empty" or "moved"
VARIABLES v, last

Val(e, w) == IF e.op = "make" THEN "m" \o ToString(e.c) ELSE w[e.s] \o ToString(e.c)
OpsIn(w) ==
  LET all == [op : {"make", "mut"}, s : Slots, c : Codes]
             \cup [op : {"new_copy", "new_move", "copy_assign", "move_assign", "swap"}, s : Slots, t : Slots]
             \cup [op : {"destroy"}, s : Slots] IN
  {e \in all : Enabled(w, e) /\ (e.op = "mut" => Len(w[e.s]) < Depth + 2)
               /\ (Left = "moved" => (e.op # "swap" /\ ~(e.op = "move_assign" /\ e.s = e.t)))}
Init == v = [s \in Slots |-> Off] /\ last = [op |-> "init"]
Next == \E e \in OpsIn(v) : v' = Post(v, e, Val(e, v), IF Left = "empty" THEN "m0" ELSE Moved) /\ last' = e
Spec == Init /\ [][Next]_<<v, last>>
View == v
(* Only the slots an operation names may change, and copying or moving invents nothing. *)
Frame == [][\A s \in Slots : v'[s] # v[s] => (s = last'.s \/ ("t" \in DOMAIN last' /\ s = last'.t /\ last'.op \in {"new_move", "move_assign", "swap"}))]_<<v, last>>
Conserve == [][last'.op \in {"swap", "new_copy", "copy_assign", "new_move", "move_assign"} =>
               \A s \in Slots : v'[s] \in {v[r] : r \in Slots} \cup {"m0", Moved}]_<<v, last>>
Emit == PrintT("@@" \o ToJson([f |-> v, o |-> last', t |-> v']))
=============================================================================
