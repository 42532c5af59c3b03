------------------------------- MODULE IterGen -------------------------------
(* Small systems, with and without a preconditioner: the laws that make the conditions on the steps
   the right ones are checked on each, and each is then given to the real solvers.               *)
EXTENDS Iter, TLC, Json
CONSTANTS M2, Every
VARIABLES A, P, b, done
RECURSIVE Hash(_, _)
Hash(s, k) == IF k = 0 THEN 0 ELSE ((Hash(s, k - 1) * 3) + s[k] + 5) % 1009
Det2(B) == (B[1][1] * B[2][2]) - (B[1][2] * B[2][1])
Det3(B) == Dot(B[1], Cross(B[2], B[3]))
Init == /\ done = FALSE
        /\ \/ /\ \E s \in [1..4 -> (-M2)..M2] : A = <<<<s[1], s[2]>>, <<s[3], s[4]>>>>
              /\ b \in {<<x, y>> : x \in -1..2, y \in 0..2} /\ Det2(A) /= 0
              /\ P \in {<<>>, <<4, 4>>, <<1, 4>>, <<4, 2>>}
              /\ Hash(A[1] \o A[2] \o b \o P, Len(A[1] \o A[2] \o b \o P)) % Every = 0
           \/ /\ \E s \in [1..9 -> -1..1] : /\ A = <<<<s[1], s[2], s[3]>>, <<s[4], s[5], s[6]>>, <<s[7], s[8], s[9]>>>>
                                             /\ Hash(s, 9) % (8 * Every) = 0
              /\ Det3(A) /= 0
              /\ b \in {<<1, 0, 0>>, <<1, 2, 1>>, <<0, 1, -1>>, <<2, 0, 1>>, <<0, 0, 0>>}
              /\ P \in {<<>>, <<1, 4, 2>>}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<A, P, b>>
Spec == Init /\ [][Next]_<<A, P, b, done>>
N == Len(b)
D == IF N = 2 THEN Det2(A) ELSE Det3(A)
Col(B, j) == [q \in 1..N |-> B[q][j]]
Swap(j) == [q \in 1..N |-> [c \in 1..N |-> IF c = j THEN b[q] ELSE A[q][c]]]
X == [j \in 1..N |-> IF N = 2 THEN Det2(Swap(j)) ELSE Det3(Swap(j))]    \* Cramer: D times the solution
Symmetric == \A p, q \in 1..N : A[p][q] = A[q][p]
Definite == Symmetric /\ A[1][1] > 0 /\ (A[1][1] * A[2][2]) - (A[1][2] * A[2][1]) > 0 /\ D > 0
Laws ==
  LET deg == Degree(A, P, b)
      z(j) == Z(A, P, b, j)
      Len2(x) == Dot(x, x) IN
  /\ Exact(A, b, D, X)
  /\ \A j \in 1..N : ~Exact(A, b, D, [X EXCEPT ![j] = @ + 1])
  /\ deg \in 0..N /\ ((deg = 0) <=> Null(b))
  \* the solution is in the space of the degree, and in none before
  /\ deg = 1 => Parallel(X, z(1))
  /\ (deg > 1) => ~Parallel(X, z(1))
  /\ (deg = 2 /\ N = 3) => Dot(Cross(z(1), z(2)), X) = 0
  /\ (deg = 3) => Dot(Cross(z(1), z(2)), X) /= 0
  \* the first step: orthogonal, and no other multiple is shorter (gm) or nearer (cg)
  /\ deg >= 1 =>
       LET d == Den1("gm", A, P, b)  n == Num1("gm", A, P, b)  w == Times(A, z(1))  r == Res1("gm", A, P, b) IN
       /\ d > 0 /\ Dot(r, w) = 0
       /\ \A c \in -8..8 : Len2(r) <= Len2([q \in 1..N |-> (d * b[q]) - ((n + c) * w[q])])
       /\ Len2(r) <= d * d * Len2(b)
       /\ (Null(r)) <=> (deg = 1)
       /\ deg = 1 => /\ Enough1("gm", A, P, b, 10) = "yes" /\ By(D, By(n, z(1))) = By(d, X)
  /\ (deg >= 1 /\ Definite) =>
       LET d == Den1("cg", A, P, b)  n == Num1("cg", A, P, b)  r == Res1("cg", A, P, b)
           Energy(x) == LET e == [q \in 1..N |-> (D * x[q]) - (d * X[q])] IN Dot(e, Times(A, e)) IN
       /\ d > 0 /\ n > 0 /\ Dot(r, z(1)) = 0
       /\ \A c \in -4..4 : Energy(By(n, z(1))) <= Energy(By(n + c, z(1)))
       /\ (Null(r)) <=> (deg = 1)
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [A |-> A, P |-> P, b |-> b, spd |-> Definite], t |-> 0]))
=============================================================================
