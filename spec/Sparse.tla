-------------------------------- MODULE Sparse --------------------------------
(* Matrices in compressed row form: sizes, the start of every row, the columns and the elements row
   after row.  What is done with them is said of the dense matrix of the same entries, whatever the
   order of the columns in a row, and entries of the same place add up.  Numbers are integers.   *)
EXTENDS Integers, Sequences, FiniteSets
None == [n0 |-> 0, n1 |-> 0, row |-> <<>>, col |-> <<>>, el |-> <<>>]
RECURSIVE SumOf(_, _, _)
SumOf(f(_), a, b) == IF a >= b THEN 0 ELSE f(a) + SumOf(f, a + 1, b)       \* f(a) + ... + f(b - 1)
RowOf(A, i) == A.row[i + 1]..(A.row[i + 2] - 1)                            \* places of row i
At(A, i, j) == LET f(k) == IF A.col[k + 1] = j THEN A.el[k + 1] ELSE 0 IN SumOf(f, A.row[i + 1], A.row[i + 2])
Dense(A) == [i \in 0..(A.n0 - 1) |-> [j \in 0..(A.n1 - 1) |-> At(A, i, j)]]
WellFormed(A) ==
  /\ Len(A.col) = Len(A.el)
  /\ A.n0 > 0 => /\ Len(A.row) = A.n0 + 1 /\ A.row[1] = 0 /\ A.row[A.n0 + 1] = Len(A.col)
                 /\ \A i \in 1..A.n0 : A.row[i] <= A.row[i + 1]
  /\ \A k \in 1..Len(A.col) : A.col[k] \in 0..(A.n1 - 1)
NoTwice(A) == \A i \in 0..(A.n0 - 1) : \A k, l \in RowOf(A, i) : k /= l => A.col[k + 1] /= A.col[l + 1]
Sorted(A) == \A i \in 0..(A.n0 - 1) : \A k, l \in RowOf(A, i) : k < l => A.col[k + 1] < A.col[l + 1]
----------------------------------------------------------------------------
\* the matrix of a list of positions <<i, j>>: every position once, in order; index: where each went
Cells(pos, i) == {pos[l][2] : l \in {k \in 1..Len(pos) : pos[k][1] = i}}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
RECURSIVE Columns(_, _)
Columns(pos, n) == IF n = 0 THEN <<>> ELSE Columns(pos, n - 1) \o Ascending(Cells(pos, n - 1))
Starts(pos, n) == [q \in 1..(n + 1) |-> Len(Columns(pos, q - 1))]
Place(A, i, j) == CHOOSE k \in RowOf(A, i) : A.col[k + 1] = j
OfPositions(n, pos) == LET c == Columns(pos, n) IN
  [n0 |-> n, n1 |-> n, row |-> IF n = 0 THEN <<>> ELSE Starts(pos, n), col |-> c, el |-> [k \in 1..Len(c) |-> 0]]
IndexOf(A, pos) == [l \in 1..Len(pos) |-> Place(A, pos[l][1], pos[l][2])]
InRange(n, pos) == \A l \in 1..Len(pos) : pos[l][1] \in 0..(n - 1) /\ pos[l][2] \in 0..(n - 1)
Filled(A, index, v) == [A EXCEPT !.el = [k \in 1..Len(A.col) |-> LET f(l) == IF index[l] = k - 1 THEN v[l] ELSE 0 IN SumOf(f, 1, Len(index) + 1)]]
----------------------------------------------------------------------------
\* alpha A x + beta y
Product(A, alpha, x, beta, y) == [q \in 1..A.n0 |->
  LET f(j) == At(A, q - 1, j) * x[j + 1] IN (alpha * SumOf(f, 0, A.n1)) + (IF beta = 0 THEN 0 ELSE beta * y[q])]
IsDot(C, A, B) == /\ WellFormed(C) /\ C.n0 = A.n0 /\ C.n1 = B.n1
                  /\ \A i \in 0..(A.n0 - 1) : \A j \in 0..(B.n1 - 1) :
                       LET f(k) == At(A, i, k) * At(B, k, j) IN At(C, i, j) = SumOf(f, 0, A.n1)
Abs(x) == IF x < 0 THEN -x ELSE x
Most(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* largest sum of |a alpha / beta| over a row, times the multiple scl of all of beta
NormLinf(A, alpha, beta, scl) == Most({LET f(j) == Abs(At(A, i, j) * alpha[j + 1]) IN SumOf(f, 0, A.n1) * (scl \div beta[i + 1]) : i \in 0..(A.n0 - 1)})
\* D times the solution of A x = b
Solves(A, D, b, x) == Len(x) = A.n1 /\ Product(A, 1, x, 0, b) = [q \in 1..Len(b) |-> D * b[q]]
=============================================================================
