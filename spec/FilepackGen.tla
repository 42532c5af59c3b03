----------------------------- MODULE FilepackGen -----------------------------
(* Every small table of booleans, strings and tables, with every path of options; records are
   read back as what was written, and no beginning of them is complete.                     *)
EXTENDS Filepack, TLC, Json
CONSTANTS Wide
VARIABLES v, opt, done
K1 == <<97>>   K2 == <<98, 0>>
L == {Val("bool", <<1>>, <<>>, <<>>), Val("str", <<>>, <<>>, <<>>), Val("str", <<0, 16>>, <<>>, <<>>)}
Maps(S) == {Val("marr", <<>>, <<>>, <<>>)} \cup {Val("marr", <<>>, <<k>>, <<x>>) : k \in {K1, K2}, x \in S} \cup {Val("marr", <<>>, <<K1, K2>>, <<p[1], p[2]>>) : p \in S \X S}
T1 == Maps(L)
T2 == Maps(L \cup T1)
T3 == IF Wide THEN Maps(T2) ELSE {Val("marr", <<>>, <<K2>>, <<x>>) : x \in T2} \cup {Val("marr", <<>>, <<K1, K2>>, <<x, y>>) : x \in T2, y \in L}
Init == v \in T2 \cup T3 /\ opt \in {<<>>, <<K1>>, <<K1, K2>>} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, opt>>
Spec == Init /\ [][Next]_<<v, opt, done>>
Returns == LET b == Enc(v, 1)  r == Read(b) IN r.ok /\ r.v = v /\ r.i = Len(b) + 1 /\ \A n \in 0..(Len(b) - 1) : ~Read(SubSeq(b, 1, n)).ok
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [op |-> "trip", where |-> 0, opt |-> opt, v |-> v], t |-> 0]))
=============================================================================
