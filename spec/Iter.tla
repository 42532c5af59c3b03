--------------------------------- MODULE Iter ---------------------------------
(* Iterative solvers of A x = b for an operator A, with a diagonal preconditioner P / 4 or none
   (P = <<>>).  After k steps the solution is in the k-th Krylov space Z, spanned by z1 = P b and
   z(j+1) = P (A z(j)).  "gm": the residual is orthogonal to A Z (so the shortest); "cg", for positive
   definite A: orthogonal to Z.  When the space stops growing (at the degree) the solution is exact.
   Numbers are integers; the real solutions are read as den x, rounded.                          *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f(n)
Dot(x, y) == LET f(k) == x[k] * y[k] IN Sum(f, Len(x))
Times(A, x) == [q \in 1..Len(A) |-> Dot(A[q], x)]
Scale(P, x) == IF P = <<>> THEN x ELSE [q \in 1..Len(x) |-> P[q] * x[q]]
By(c, x) == [q \in 1..Len(x) |-> c * x[q]]
Null(x) == \A q \in 1..Len(x) : x[q] = 0
RECURSIVE Gcd(_, _), GcdOf(_, _)
Gcd(a, c) == IF c = 0 THEN a ELSE Gcd(c, a % c)
GcdOf(x, n) == IF n = 0 THEN 0 ELSE Gcd(IF x[n] < 0 THEN -x[n] ELSE x[n], GcdOf(x, n - 1))
\* without common factors: only directions matter
Prime(x) == IF Null(x) THEN x ELSE LET g == GcdOf(x, Len(x)) IN [q \in 1..Len(x) |-> IF x[q] < 0 THEN -((-x[q]) \div g) ELSE x[q] \div g]
RECURSIVE Z(_, _, _, _)
Z(A, P, b, j) == Prime(IF j = 1 THEN Scale(P, b) ELSE Scale(P, Times(A, Z(A, P, b, j - 1))))
Zero(n) == [q \in 1..n |-> 0]
Cross(x, y) == <<(x[2] * y[3]) - (x[3] * y[2]), (x[3] * y[1]) - (x[1] * y[3]), (x[1] * y[2]) - (x[2] * y[1])>>
Parallel(x, y) == \A p, q \in 1..Len(x) : x[p] * y[q] = x[q] * y[p]
\* the number of steps after which the solution is exact; at most that when there are more than 3 unknowns
Degree(A, P, b) ==
  LET z(j) == Z(A, P, b, j) IN
  IF Null(b) THEN 0
  ELSE IF Len(b) > 3 THEN Len(b)
  ELSE IF Parallel(z(1), z(2)) THEN 1
  ELSE IF Len(b) = 2 \/ Dot(Prime(Cross(z(1), z(2))), z(3)) = 0 THEN 2
  ELSE 3
\* what the residual is orthogonal to after a step in direction z
Test(kind, A, z) == IF kind = "gm" THEN Times(A, z) ELSE z
\* the first step: x = (num / den) z1
Num1(kind, A, P, b) == Dot(Test(kind, A, Z(A, P, b, 1)), b)
Den1(kind, A, P, b) == Dot(Test(kind, A, Z(A, P, b, 1)), Times(A, Z(A, P, b, 1)))
\* the residual den b - A (den x) of the first step
Res1(kind, A, P, b) == LET w == Times(A, Z(A, P, b, 1)) IN [q \in 1..Len(b) |-> (Den1(kind, A, P, b) * b[q]) - (Num1(kind, A, P, b) * w[q])]
\* "yes", "no" or "tie": is the residual of the first step at most 1/rel of b
Enough1(kind, A, P, b, rel) ==
  LET r == Res1(kind, A, P, b)  d == Den1(kind, A, P, b)
      l == Dot(r, r) * rel * rel  m == d * d * Dot(b, b) IN
  IF l < m THEN "yes" ELSE IF l > m THEN "no" ELSE "tie"
Exact(A, b, den, x) == Times(A, x) = By(den, b)
=============================================================================
