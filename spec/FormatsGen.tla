------------------------------ MODULE FormatsGen ------------------------------
(* Every type under every small name: names are the formats, other endings, and each after others. *)
EXTENDS Formats, TLC, Json
VARIABLES d, last
A == <<97>>
Ext == {Npy, Toml, Data, Png}
NamesAll == {A \o x : x \in Ext} \cup {A \o x \o y : x \in Ext, y \in Ext} \cup {A, A \o <<46>>, A \o <<46, 110, 112, 122>>, A \o Npy \o <<46>>, A \o Toml \o <<32>>,
             A \o Tail(Npy), A \o Tail(Data), A \o Tail(Toml), A \o Tail(Png), A \o <<46, 78, 80, 89>>, A \o <<46, 84, 79, 77, 76>>, <<195, 169>> \o Toml, <<32>> \o Npy, A \o <<46, 46>> \o Data,
             A \o SubSeq(Npy, 1, 3), A \o Npy \o A, Npy \o A, Data, Toml, Npy, Png}
Ops(b) ==
  LET ns == Names(b) IN
  IF ns = {} THEN [op : {"save"}, t : Types, n : NamesAll, x : {1, 2}] \cup [op : {"load"}, t : Types, n : NamesAll] \cup [op : {"junk"}, n : {A \o x : x \in Ext}]
  ELSE [op : {"load"}, t : Types, n : ns] \cup [op : {"save"}, t : Types, n : ns, x : {2}] \cup (IF Format(CHOOSE n \in ns : TRUE) = "data" /\ ns \cap {A \o Data} # {} THEN [op : {"opts"}, t : {"marr", "map", "arr"}, n : {A \o Data}, x : {1}] ELSE {})
       \cup (IF \E n \in ns : Len(n) > 6 \/ n[1] # 97 THEN {} ELSE [op : {"copy"}, n : ns, m : {A \o x : x \in Ext} \cup {A}])
Init == d = {} /\ last = [op |-> "init"]
Next == \E e \in Ops(d) : LET r == Post(d, e) IN d' = r.d /\ last' = e
Small == \A p, q \in d : p = q \/ ~(Len(p.n) > 6 \/ Len(q.n) > 6)
Spec == Init /\ [][Next]_<<d, last>>
View == d
\* one name, one file; what is there was saved in a format that holds it, or copied
Inv == \A p, q \in d : p.n = q.n => p = q
\* an error leaves the disk as it was; a load as well
Keeps == [][ (Post(d, last').st = "error" \/ last'.op = "load") => d' = d ]_<<d, last>>
\* what can be saved as a format that can be loaded comes back
Returns == \A p \in d : (p.x.f = Format(p.n) /\ Loads(p.x.t, p.x.f)) => Post(d, [op |-> "load", t |-> p.x.t, n |-> p.n]) = R(d, "ok", p.x.v)
Depth == TLCGet("level") < 5
Emit == PrintT("@@" \o ToJson([f |-> d, o |-> last', t |-> d']))
=============================================================================
