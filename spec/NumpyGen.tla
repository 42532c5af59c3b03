------------------------------- MODULE NumpyGen -------------------------------
(* Histories of one place: saving, loading, damage between them.  The state is what kind of
   file is there; data and positions of damage are chosen by whoever runs the history.       *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES a, last
Kinds == {"array", "matrix"}   Types == {"i4", "i8", "f8"}
Init == a = [k |-> "none", kind |-> "", type |-> ""] /\ last = [op |-> "init"]
None == [k |-> "none", kind |-> "", type |-> ""]
Act(e, b) == a' = b /\ last' = e
Next ==
  \/ \E kind \in Kinds, type \in Types : Act([op |-> "load", kind |-> kind, type |-> type], a)
  \/ \E kind \in Kinds, type \in Types, r \in {0, 1} : Act([op |-> "save", kind |-> kind, type |-> type, reserve |-> r], IF a.k = "dir" THEN a ELSE [k |-> "whole", kind |-> kind, type |-> type])
  \/ a.k = "whole" /\ \E x \in {"header", "data"} : Act([op |-> "cut", where |-> x], [a EXCEPT !.k = "cut"])
  \/ a.k = "whole" /\ \E x \in {"header", "data"} : Act([op |-> "poke", where |-> x], [a EXCEPT !.k = "poked"])
  \/ a.k \in {"whole", "cut"} /\ Act([op |-> "app"], [a EXCEPT !.k = "grown"])
  \/ a.k /= "none" /\ Act([op |-> "rm"], None)
  \/ a.k /= "dir" /\ Act([op |-> "mkdir"], [None EXCEPT !.k = "dir"])
Spec == Init /\ [][Next]_<<a, last>>
View == a
Emit == PrintT("@@" \o ToJson([f |-> a, o |-> last', t |-> a']))
=============================================================================
