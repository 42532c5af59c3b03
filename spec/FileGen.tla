-------------------------------- MODULE FileGen --------------------------------
(* One object, one file that may be missing, and the places that fail: every transition. *)
EXTENDS File, TLC, Json
CONSTANTS Top
VARIABLES a, last
Texts == {<<>>, <<1>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5>>}
Ops(b) ==
  LET o == b.f[1]  on == o.st \in {"open", "lost"} IN
  (IF InUse(b, 1) THEN {} ELSE [op : {"put"}, p : {1}, b : Texts] \cup [op : {"gone", "look"}, p : {1}])
  \cup (IF o.st = "off" THEN [op : {"open"}, s : {1}, p : {1, 3}, mode : {"r", "w"}, buf : {0, 1, 2, 3, 8}] \cup [op : {"open"}, s : {1}, p : {4}, mode : {"w"}, buf : {0}]
        ELSE [op : {"drop", "close"}, s : {1}]
             \cup [op : {"read"}, s : {1}, n : -1..3, w : 0..2, fixed : {FALSE}] \cup [op : {"read"}, s : {1}, n : 0..2, w : {1, 2}, fixed : {TRUE}]
             \cup (IF on /\ o.mode = "w" THEN {} ELSE [op : {"skip"}, s : {1}, n : 0..3])
             \cup {[op |-> "write", s |-> 1, n |-> x[1], w |-> x[2], b |-> x[3]] : x \in {<<0, 1, <<>>>>, <<1, 1, <<7>>>>, <<1, 2, <<8, 9>>>>, <<2, 1, <<4, 5>>>>, <<-1, 1, <<>>>>}})
Init == a = Blank /\ last = [op |-> "init"]
Next == \E e \in Ops(a) : \E r \in Posts(a, e) : a' = r.a /\ last' = e @@ [bad |-> r.st = "abort"]
Spec == Init /\ [][Next]_<<a, last>>
Small == Len(a.f[1].out) <= Top /\ a.f[1].pos <= Top + 3
View == a
Inv == /\ a.f[1].pos >= 0
       /\ a.f[1].st \in {"off", "failed", "closed"} => a.f[1].pos = 0 /\ a.f[1].out = <<>>
       /\ a.f[2] = NoFile /\ a.disk[2] = Blank.disk[2]
\* reading never changes the disk, and nothing is written but by closing
Keeps == [][ (a'.disk # a.disk) => last'.op \in {"put", "gone", "close"} \/ (last'.op = "open" /\ last'.mode = "w") ]_<<a, last>>
Aborts == [][ last'.bad => a' = a ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> a, o |-> last', t |-> a']))
=============================================================================
