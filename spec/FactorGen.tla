------------------------------ MODULE FactorGen ------------------------------
(* Small integer matrices, singular or not: the laws the defining equations rest on are checked on
   each (the adjugate solves, nothing else does, a singular matrix has a kernel), and each is then
   factorised and solved by the real functions.                                               *)
EXTENDS Factor, TLC, Json
CONSTANTS Every, Two
VARIABLES o, done
Of(n, s) == [o |-> "D", off |-> 0, n0 |-> n, n1 |-> n, s |-> n, e |-> [q \in 1..(2 * n * n) |-> IF q % 2 = 1 THEN s[(q + 1) \div 2] ELSE 0]]
RECURSIVE Hash(_, _)
Hash(s, k) == IF k = 0 THEN 0 ELSE ((Hash(s, k - 1) * 3) + s[k] + 5) % 1009
Init == /\ done = FALSE
        /\ \/ \E s \in [1..1 -> (-Two)..Two] : o = Of(1, s)
           \/ \E s \in [1..4 -> (-Two)..Two] : o = Of(2, s)
           \/ \E s \in [1..9 -> -1..1] : Hash(s, 9) % Every = 0 /\ o = Of(3, s)
Next == ~done /\ done' = TRUE /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, done>>
N == o.n0
Ix == 0..(N - 1)
F(i, j) == At(o, i, j)
Without(x, i) == IF x < i THEN x ELSE x + 1
Adj(i, j) == LET M(a, b) == F(Without(a, j), Without(b, i)) IN Mul(<<IF (i + j) % 2 = 0 THEN 1 ELSE -1, 0>>, DetOf(M, N - 1, 0, 0..(N - 2)))
AdjFlat == [q \in 1..(2 * N * N) |-> LET p == (q - 1) \div 2 IN Adj(p % N, p \div N)[IF q % 2 = 1 THEN 1 ELSE 2]]
Laws ==
  LET d == Det(o)
      T(i, j) == F(j, i)
      \* product with a fixed matrix of determinant 2 or 1
      K(i, j) == IF i = j THEN <<IF i = 0 THEN 2 ELSE 1, 0>> ELSE IF i < j THEN <<i + (2 * j), 0>> ELSE Zero
      P(i, j) == LET g(k) == Mul(F(i, k), K(k, j)) IN Acc(g, N) IN
  /\ DetOf(T, N, 0, Ix) = d
  /\ DetOf(P, N, 0, Ix) = Mul(<<2, 0>>, d)
  /\ Coef(F, N, N) = d
  /\ LET g(i) == F(i, i) IN Coef(F, N, 1) = Acc(g, N)
  \* the adjugate is the solution of A X = d I ...
  /\ Solves(o, d, AdjFlat, Ident(N), N)
  \* ... the only one when d is not 0
  /\ d /= Zero => \A q \in 1..(N * N) : ~Solves(o, d, [AdjFlat EXCEPT ![(2 * q) - 1] = @ + 1], Ident(N), N)
  \* singular: some combination of the columns is 0
  /\ (d = Zero /\ N <= 2) => \E x \in [Ix -> (-Two)..Two] : (\E i \in Ix : x[i] /= 0) /\ \A i \in Ix : LET g(k) == Mul(F(i, k), <<x[k], 0>>) IN Acc(g, N) = Zero
  \* positive definite symmetric matrices are positive on every vector
  /\ (\A i, j \in Ix : F(i, j) = F(j, i)) =>
       (Definite(o) => \A x \in [Ix -> -1..1] : (\A i \in Ix : x[i] = 0) \/
          LET g(i) == LET h(j) == Mul(F(i, j), <<x[i] * x[j], 0>>) IN Acc(h, N) IN Acc(g, N)[1] > 0)
  \* norms: the largest element is at most the norm, the norm at most all elements together; L1 is Linf of the transpose
  /\ LET a(i, j) == F(i, j)[1]  t(i, j) == F(j, i)[1] IN
     /\ NormL1(a, N, N) = NormLinf(t, N, N)
     /\ \A i, j \in Ix : Abs(a(i, j)) <= NormL1(a, N, N)
  \* interchanges are undone by the same interchanges in the opposite order
  /\ \A p \in {<<1, 2, 3>>, <<3, 2, 3>>, <<2, 3, 3>>, <<3, 3, 3>>} : N = 3 => {After(p, 3)[k] : k \in 1..3} = 1..3
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> o, t |-> 0]))
=============================================================================
