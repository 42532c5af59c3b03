-------------------------------- MODULE Factor --------------------------------
(* Factorisations, solvers and norms of dense matrices, by their defining equations over the
   complex integers.  Results are rational numbers whose denominator the operation names (D, scl):
   they are observed multiplied by it, and the equations are those of the multiples.            *)
EXTENDS Dense, FiniteSets
RECURSIVE DetOf(_, _, _, _)
\* determinant of the rows r.. of the square matrix at(0..n-1, 0..n-1) restricted to the columns cols
DetOf(at(_, _), n, r, cols) ==
  IF r = n THEN One
  ELSE IF r = n - 1 THEN at(r, CHOOSE c \in cols : TRUE)
  ELSE LET RECURSIVE Go(_, _, _)
           Go(c, sign, left) == IF c = 100 THEN Zero
                                ELSE IF c \notin left THEN (IF \E d \in left : d > c THEN Go(c + 1, sign, left) ELSE Zero)
                                ELSE LET x == at(r, c)
                                         t == IF x = Zero THEN Zero ELSE Mul(<<sign, 0>>, Mul(x, DetOf(at, n, r + 1, cols \ {c}))) IN
                                     Add(t, Go(c + 1, -sign, left \ {c})) IN
       Go(0, 1, cols)
Det(M) == LET F(i, j) == At(M, i, j) IN DetOf(F, M.n0, 0, 0..(M.n0 - 1))
Leading(M, k) == LET F(i, j) == At(M, i, j) IN DetOf(F, k, 0, 0..(k - 1))
\* k-th coefficient: sum of the principal minors of order k of at(0..n-1, 0..n-1)
RECURSIVE AddAll(_, _)
AddAll(f(_), S) == IF S = {} THEN Zero ELSE LET x == CHOOSE y \in S : TRUE IN Add(f(x), AddAll(f, S \ {x}))
RECURSIVE Nth(_, _)
Nth(S, k) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 0 THEN m ELSE Nth(S \ {m}, k - 1)
Coef(at(_, _), n, k) ==
  LET Minor(S) == LET F(i, j) == at(Nth(S, i), Nth(S, j)) IN DetOf(F, k, 0, 0..(k - 1)) IN
  AddAll(Minor, {S \in SUBSET (0..(n - 1)) : Cardinality(S) = k})
\* at a flat list, columns one after the other, n0 rows
Flat(e, n0, i, j) == Cell(e, (j * n0) + i)
RECURSIVE Acc(_, _)
Acc(f(_), k) == IF k = 0 THEN Zero ELSE Add(f(k - 1), Acc(f, k - 1))
Scal(D, x) == Mul(D, x)
MinOf(a, b) == IF a < b THEN a ELSE b
----------------------------------------------------------------------------
\* row interchanges: row k with row p[k], one after the other
RECURSIVE Swaps(_, _, _)
Swaps(P, n, k) == IF k = 0 THEN [q \in 1..n |-> q]
                  ELSE LET s == Swaps(P, n, k - 1) IN [s EXCEPT ![k] = s[P[k]], ![P[k]] = s[k]]
After(P, n) == Swaps(P, n, Len(P))
ValidP(P, n) == \A k \in 1..Len(P) : P[k] \in k..n
\* triangles: the other elements of the buffer do not count
Tri(type, M, i, j) == IF type = "L" THEN (IF i = j THEN One ELSE IF i > j THEN At(M, i, j) ELSE Zero)
                      ELSE (IF i <= j THEN At(M, i, j) ELSE Zero)
TriOp(e, i, j) == IF e.opa = "N" THEN Tri(e.type, e.A, i, j) ELSE Tri(e.type, e.A, j, i)
\* what does not belong to the window is as before
Around(C, out) == Len(out) = Len(C.e) /\ \A p \in 0..((Len(C.e) \div 2) - 1) : Outside(C, p) => Cell(out, p) = Cell(C.e, p)
OutAt(e, i, j) == At([e.C EXCEPT !.e = e.out], i, j)
PRow(e, i) == IF Len(e.P) = 0 THEN i ELSE After(e.P, e.C.n0)[i + 1] - 1
SolveFits(e) == CASE e.op = "swap" -> Len(e.P) = e.C.n0
                  [] OTHER -> /\ e.A.n0 = e.A.n1 /\ (IF e.side = "L" THEN e.C.n0 ELSE e.C.n1) = e.A.n0
                              /\ (e.piv => Len(e.P) = e.A.n0)
SolveRight(e) ==
  /\ e.kept /\ Around(e.C, e.out)
  /\ \A i \in 0..(e.C.n0 - 1) : \A j \in 0..(e.C.n1 - 1) :
       LET was == Scal(e.D, At(e.C, PRow(e, i), j)) IN
       CASE e.op = "swap" -> OutAt(e, i, j) = was
         [] e.side = "L" -> LET f(k) == Mul(TriOp(e, i, k), OutAt(e, k, j)) IN Acc(f, e.C.n0) = was
         [] e.side = "R" -> LET f(k) == Mul(OutAt(e, i, k), TriOp(e, k, j)) IN Acc(f, e.C.n1) = was
----------------------------------------------------------------------------
\* A X = D B; x and b flat lists of n rows and r columns
Solves(A, D, x, b, r) ==
  /\ Len(x) = 2 * A.n0 * r
  /\ \A i \in 0..(A.n0 - 1) : \A j \in 0..(r - 1) :
       LET f(k) == Mul(At(A, i, k), Flat(x, A.n0, k, j)) IN Acc(f, A.n0) = Scal(D, b[i, j])
Rhs(B) == [ij \in (0..(B.n0 - 1)) \X (0..(B.n1 - 1)) |-> At(B, ij[1], ij[2])]
Ident(n) == [ij \in (0..(n - 1)) \X (0..(n - 1)) |-> IF ij[1] = ij[2] THEN One ELSE Zero]
\* L unit lower m x r, U upper r x n in one flat list of m rows (L and U over scl): their product, over scl^2
InL(e, m, i, k) == IF i = k THEN <<e.scl, 0>> ELSE IF i > k THEN Flat(e.f, m, i, k) ELSE Zero
InU(e, m, k, j) == IF k <= j THEN Flat(e.f, m, k, j) ELSE Zero
LUat(e, m, n, i, j) == LET f(k) == Mul(InL(e, m, i, k), InU(e, m, k, j)) IN Acc(f, MinOf(m, n))
Over(e, x) == Scal(<<e.scl * e.scl, 0>>, x)
Bounded(e, m, n) == \A i \in 0..(m - 1) : \A k \in 0..(n - 1) : i > k => LET x == Flat(e.f, m, i, k) IN x[1] \in (-e.scl)..e.scl
Perms(m) == {p \in [0..(m - 1) -> 0..(m - 1)] : \A a, b \in 0..(m - 1) : p[a] = p[b] => a = b}
\* some interchange of the rows of A is L U: each row of A is a row of L U and the other way round, as often
FactorsUp(e) == LET m == e.A.n0  n == e.A.n1
                    prod == [i \in 0..(m - 1) |-> [j \in 0..(n - 1) |-> LUat(e, m, n, i, j)]]
                    rows == [i \in 0..(m - 1) |-> [j \in 0..(n - 1) |-> Over(e, At(e.A, i, j))]] IN
                \A i \in 0..(m - 1) : Cardinality({k \in 0..(m - 1) : prod[k] = rows[i]}) = Cardinality({k \in 0..(m - 1) : rows[k] = rows[i]})
FactorsP(e) == LET m == e.A.n0  n == e.A.n1  p == After(e.P, m) IN
               /\ ValidP(e.P, m) /\ Len(e.f) = 2 * m * n
               /\ \A i \in 0..(m - 1) : \A j \in 0..(n - 1) : LUat(e, m, n, i, j) = Over(e, At(e.A, p[i + 1] - 1, j))
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k - 1) + SumTo(f, k - 1)
RECURSIVE MaxTo(_, _)
MaxTo(f(_), k) == IF k = 0 THEN 0 ELSE MaxOf(f(k - 1), MaxTo(f, k - 1))
\* norms of matrices of integers: largest sum over a column, over a row
NormL1(at(_, _), m, n) == LET col(j) == LET a(i) == Abs(at(i, j)) IN SumTo(a, m) IN MaxTo(col, n)
NormLinf(at(_, _), m, n) == LET row(i) == LET a(j) == Abs(at(i, j)) IN SumTo(a, n) IN MaxTo(row, m)
\* the estimate c of the condition number, times |D|: never more than the condition number, at least a tenth of it
Near(c, true) == c <= true + 1 /\ c + 1 >= true \div 10
CondRight(e) == LET a(i, j) == At(e.A, i, j)[1]  b(i, j) == Flat(e.inv, e.A.n0, i, j)[1]  n == e.A.n0 IN
                /\ Near(e.c1, NormL1(a, n, n) * NormL1(b, n, n))
                /\ Near(e.ci, NormLinf(a, n, n) * NormLinf(b, n, n))
Square(e) == e.A.n0 = e.A.n1
LuRight(e) ==
  LET m == e.A.n0  n == e.A.n1 IN
  /\ e.kept /\ e.sz = <<m, n>>
  /\ e.scl > 0 => Len(e.f) = 2 * m * n /\ FactorsUp(e) /\ Bounded(e, m, n)
  /\ m = n => /\ e.D = Det(e.A) /\ e.det = e.D
              /\ e.tri                                  \* L() and U() are L(i, j) and U(i, j)
              /\ Solves(e.A, e.D, e.inv, Ident(n), n)
              /\ Solves(e.A, e.D, e.xm, Rhs(e.B), e.B.n1)
              /\ Solves(e.A, e.D, e.xv, Rhs([e.B EXCEPT !.n1 = 1]), 1)
              /\ e.cond => CondRight(e)
\* first zero pivot: leading minors do not see interchanges, so only the square case and the first column
Singular(e) == IF Square(e) THEN Det(e.A) = Zero ELSE e.sing
Definite(A) == \A k \in 1..A.n0 : Leading(A, k)[1] > 0
Coefs(at(_, _), n, c) == Len(c) = n /\ \A k \in 1..n : c[k] = Coef(at, n, k)[1]
NormOf(e) ==
  LET n == e.A.n0  v(i) == At(e.A, i, 0)[1] * (e.scl \div e.w[i + 1])
      a1(i) == Abs(v(i))  a2(i) == v(i) * v(i)  a(i, j) == At(e.A, i, j)[1]
      \* tridiagonal: row i holds the elements left of, on and right of the diagonal
      t(i, j) == IF (i = 0 /\ j = 0) \/ (i = n - 1 /\ j = 2) THEN 0 ELSE a(i, j) IN
  CASE e.of = "vec" -> IF e.kind = "L1" THEN SumTo(a1, n) ELSE IF e.kind = "L2" THEN SumTo(a2, n) ELSE MaxTo(a1, n)
    [] e.of = "mat" -> IF e.kind = "L1" THEN NormL1(a, n, e.A.n1) ELSE NormLinf(a, n, e.A.n1)
    [] e.of = "tri" -> NormLinf(t, n, 3)
\* the matrix of a linear system: band and tridiagonal matrices hold row i at (i, k + left)
Stored(e, i, j) == CASE e.of = "full" -> At(e.A, i, j)
                     [] OTHER -> LET k == (j - i) + e.left IN IF k < 0 \/ k >= e.A.n1 THEN Zero ELSE At(e.A, i, k)
System(e) == LET n == e.A.n0 IN [o |-> "D", off |-> 0, n0 |-> n, n1 |-> n, s |-> n,
               e |-> [q \in 1..(2 * n * n) |-> LET p == (q - 1) \div 2 IN Stored(e, p % n, p \div n)[IF q % 2 = 1 THEN 1 ELSE 2]]]
SystemFits(e) == (e.of = "full" => Square(e)) /\ e.B.n0 = e.A.n0
Judged(e) ==
  CASE e.op \in {"swap", "solve"} -> IF ~SolveFits(e) THEN e.st = "abort" ELSE e.st = "ok" /\ SolveRight(e)
    [] e.op = "linsolve" ->
         IF ~SystemFits(e) THEN e.st = "abort"
         ELSE LET M == System(e) IN
              IF Det(M) = Zero THEN e.st = "singular" /\ e.kept
              ELSE e.st = "ok" /\ e.kept /\ e.D = Det(M) /\ Solves(M, e.D, e.xv, Rhs(e.B), 1)
    [] e.op = "lu" -> IF Singular(e) THEN e.st = "singular" /\ e.kept ELSE e.st = "ok" /\ LuRight(e)
    [] e.op = "lus" -> IF Det(e.A) = Zero THEN e.st = "singular" ELSE e.st = "ok" /\ e.D = Det(e.A) /\ Solves(e.A, e.D, e.inv, Ident(e.A.n0), e.A.n0)
    [] e.op = "lud" -> IF ~Square(e) \/ e.np /= e.A.n0 \/ Det(e.A) = Zero THEN e.st = "abort"
                       ELSE e.st = "ok" /\ Around(e.A, e.out) /\ FactorsP(e)
    [] e.op = "chol" -> IF ~Square(e) THEN e.st = "abort"
                        ELSE IF ~Definite(e.A) THEN e.st = "negative" /\ e.pst = "negative" /\ e.kept
                        ELSE /\ e.st = "ok" /\ e.pst = "ok" /\ e.kept /\ e.sz = <<e.A.n0, e.A.n0>>
                             /\ e.D = Det(e.A) /\ Solves(e.A, e.D, e.inv, Ident(e.A.n0), e.A.n0)
                             /\ Solves(e.A, e.D, e.xv, Rhs([e.B EXCEPT !.n1 = 1]), 1)
                             /\ e.cond => CondRight(e)
    [] e.op = "qr" -> IF e.np /= MinOf(e.A.n0, e.A.n1) THEN e.st = "abort"
                      ELSE LET m == e.A.n0  n == e.A.n1 IN
                           /\ e.st = "ok" /\ Around(e.A, e.out)
                           /\ Len(e.qr) = 2 * m * n /\ Len(e.gram) = 2 * n * n
                           \* Q R is A, and R^* R is A^* A: Q keeps lengths
                           /\ \A i \in 0..(m - 1) : \A j \in 0..(n - 1) : Flat(e.qr, m, i, j) = At(e.A, i, j)
                           /\ \A i \in 0..(n - 1) : \A j \in 0..(n - 1) : Flat(e.gram, n, i, j) = Inner("S", e.A, "N", e.A, i, j)
    [] e.op = "eig" -> LET F(i, j) == At(e.A, i, j) IN
                       IF ~Square(e) THEN e.st = "abort" ELSE e.st = "ok" /\ e.kept /\ Coefs(F, e.A.n0, e.c)
    [] e.op = "sing" -> LET F(i, j) == Inner("S", e.A, "N", e.A, i, j) IN e.st = "ok" /\ e.sorted /\ Coefs(F, e.A.n0, e.c)
    [] e.op = "norm" -> IF (e.of /= "vec" /\ e.kind = "L2") \/ (e.of = "tri" /\ e.kind = "L1") \/ (e.of = "vec" /\ e.np /= e.A.n0) THEN e.st = "abort"
                        ELSE e.st = "ok" /\ e.kept /\ e.val = NormOf(e)
=============================================================================
