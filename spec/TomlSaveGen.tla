----------------------------- MODULE TomlSaveGen -----------------------------
(* Every small tree; the way to write documents above makes documents that mean the tree. *)
EXTENDS TomlSave, TLC, Json
CONSTANTS Wide
VARIABLES v, done
L0 == { [t |-> "bool", n |-> <<1>>, k |-> <<>>, c |-> <<>>], [t |-> "int", n |-> <<7, 0, 0, 0>>, k |-> <<>>, c |-> <<>>],
        [t |-> "str", n |-> <<34, 93, 10>>, k |-> <<>>, c |-> <<>>] }
K1 == <<97>>   K2 == <<97, 46, 98>>   K3 == <<>>
Node1(t, k, c) == [t |-> t, n |-> <<>>, k |-> k, c |-> c]
Arrs(S) == {Node1("arr", <<>>, <<>>)} \cup {Node1("arr", <<>>, <<x>>) : x \in S} \cup {Node1("arr", <<>>, <<p[1], p[2]>>) : p \in {q \in S \X S : TKind(q[1]) = TKind(q[2])}}
Maps(S, t) == {Node1(t, <<>>, <<>>)} \cup {Node1(t, <<k>>, <<x>>) : k \in {K1, K3}, x \in S} \cup {Node1(t, <<K1, K2>>, <<p[1], p[2]>>) : p \in S \X S}
T1 == Arrs(L0) \cup Maps(L0, "map")
T2 == Maps(T1, "marr") \cup (IF Wide THEN Arrs(T1) ELSE Arrs({x \in T1 : Len(x.c) < 2}))
\* roots
T3 == {Node1("marr", <<K1>>, <<x>>) : x \in T2} \cup {Node1("map", <<K1, K2>>, <<x, y>>) : x \in T2, y \in (IF Wide THEN L0 \cup Maps(L0, "map") ELSE {Node1("arr", <<>>, <<>>)})}
      \cup {Node1("marr", <<K2, K1>>, <<x, y>>) : x \in T2, y \in {z \in L0 : z.t = "int"}} \cup Maps(L0, "map")
Init == v \in T3 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ v' = v
Spec == Init /\ [][Next]_<<v, done>>
Returns == LET r == Parse(Write(v)) IN r.ok /\ Alike(v, r.v)
Fine == Supported(v)
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [op |-> "trip", where |-> 0, v |-> v], t |-> 0]))
=============================================================================
