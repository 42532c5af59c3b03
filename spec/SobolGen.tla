------------------------------- MODULE SobolGen -------------------------------
(* The sequence of Sobol has the laws: of every length, and whatever the fineness it is counted in. *)
EXTENDS Sobol, TLC, Json
VARIABLES N, M, done
Init == M \in {4, 5, 6} /\ N \in 1..40 /\ N < Pow(M) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<N, M>>
Spec == Init /\ [][Next]_<<N, M, done>>
P == [n \in 1..N |-> <<Coordinate(1, n, M), Coordinate(2, n, M)>>]
Laws == Net(P, N, 2, M) /\ \A n \in 1..N : \A k \in 1..2 : P[n][k] \in 1..(Pow(M) - 1) /\ (M < 6 => Coordinate(k, n, M + 1) \div 2 = P[n][k])
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [op |-> "points", n |-> N, m |-> M], t |-> 0]))
=============================================================================
