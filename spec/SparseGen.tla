------------------------------ MODULE SparseGen ------------------------------
(* All lists of positions of a small square matrix: what the matrix built from them is, and that the
   definitions by rows and the dense matrix agree.  Each list is then given to the real constructor. *)
EXTENDS Sparse, TLC, Json
CONSTANTS N, Most0
VARIABLES n, pos, done
P(m) == (0..(m - 1)) \X (0..(m - 1))
Init == done = FALSE /\ n \in 0..N /\ \E k \in 0..Most0 : pos \in [1..k -> P(n)]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, pos>>
Spec == Init /\ [][Next]_<<n, pos, done>>
V == [l \in 1..Len(pos) |-> 3^(l - 1)]
A == OfPositions(n, pos)
M == Filled(A, IndexOf(A, pos), V)
T == LET Tp == [l \in 1..Len(pos) |-> <<pos[l][2], pos[l][1]>>] IN LET B == OfPositions(n, Tp) IN Filled(B, IndexOf(B, Tp), V)
X == [q \in 1..n |-> q + 1]
Laws ==
  /\ WellFormed(M) /\ Sorted(M) /\ NoTwice(M)
  /\ Len(M.col) = Cardinality({pos[l] : l \in 1..Len(pos)})
  \* every entry is the sum of the values given for its place
  /\ \A i, j \in 0..(n - 1) : LET f(l) == IF pos[l] = <<i, j>> THEN V[l] ELSE 0 IN At(M, i, j) = SumOf(f, 1, Len(pos) + 1)
  \* exchanging rows and columns of the positions transposes
  /\ \A i, j \in 0..(n - 1) : At(M, i, j) = At(T, j, i)
  \* the product by rows is the product of the dense matrix, and linear
  /\ \A q \in 1..n : Product(M, 2, X, 3, X)[q] = LET f(j) == Dense(M)[q - 1][j] * X[j + 1] IN (2 * SumOf(f, 0, n)) + (3 * X[q])
  /\ LET f(q) == X[q] * Product(M, 1, X, 0, X)[q]  g(q) == X[q] * Product(T, 1, X, 0, X)[q] IN SumOf(f, 1, n + 1) = SumOf(g, 1, n + 1)
  \* the matrix itself is its product with the identity, and only it has the entries
  /\ LET I == LET D == [l \in 1..n |-> <<l - 1, l - 1>>] IN Filled(OfPositions(n, D), [l \in 1..n |-> l - 1], [l \in 1..n |-> 1]) IN
       n > 0 => /\ IsDot(M, M, I) /\ IsDot(M, I, M) /\ IsDot(I, I, I)
                /\ \A k \in 1..Len(M.el) : ~IsDot([M EXCEPT !.el[k] = @ + 1], M, I)
  /\ NormLinf(M, [q \in 1..n |-> 1], [q \in 1..n |-> 1], 1) = Most({LET f(l) == IF pos[l][1] = i THEN V[l] ELSE 0 IN SumOf(f, 1, Len(pos) + 1) : i \in 0..(n - 1)})
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [n |-> n, pos |-> pos], t |-> 0]))
=============================================================================
