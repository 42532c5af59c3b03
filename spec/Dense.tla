-------------------------------- MODULE Dense --------------------------------
(* Products of matrices and vectors of complex integers.  A matrix is a window of a buffer:
   [o, off, n0, n1, s, e]: order "D" (columns one after the other) or "C" (rows), offset of the
   first cell, sizes, distance between columns (rows), cells as re, im, re, im, ...
   A vector is a matrix of one column.                                                         *)
EXTENDS Integers, Sequences
Zero == <<0, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Mul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
Conjugate(M) == [M EXCEPT !.e = [q \in 1..Len(@) |-> IF q % 2 = 0 THEN -@[q] ELSE @[q]]]
Cell(e, p) == <<e[2 * p + 1], e[2 * p + 2]>>
At(M, i, j) == Cell(M.e, M.off + (IF M.o = "D" THEN (j * M.s) + i ELSE (i * M.s) + j))
\* the operand op(M): "N" itself, "T" transposed, "S" transposed and conjugated
Rows(op, M) == IF op = "N" THEN M.n0 ELSE M.n1
Cols(op, M) == IF op = "N" THEN M.n1 ELSE M.n0
El(op, M, i, j) == CASE op = "N" -> At(M, i, j) [] op = "T" -> At(M, j, i) [] op = "S" -> Conj(At(M, j, i))
RECURSIVE Sum(_, _, _, _, _, _, _)
Sum(opa, A, opb, B, i, j, k) == IF k = 0 THEN Zero ELSE Add(Mul(El(opa, A, i, k - 1), El(opb, B, k - 1, j)), Sum(opa, A, opb, B, i, j, k - 1))
Inner(opa, A, opb, B, i, j) == Sum(opa, A, opb, B, i, j, Cols(opa, A))
Fits(opa, A, opb, B, C) == Cols(opa, A) = Rows(opb, B) /\ C.n0 = Rows(opa, A) /\ C.n1 = Cols(opb, B)
\* the cells of the buffer of C when the window holds F(i, j) and the others what they held
Outside(C, p) == p < C.off \/ LET q == p - C.off  big == q \div C.s  low == q % C.s IN
                               IF C.o = "D" THEN low >= C.n0 \/ big >= C.n1 ELSE low >= C.n1 \/ big >= C.n0
Holds(C, out, F(_, _)) ==
  /\ Len(out) = Len(C.e)
  /\ \A p \in 0..((Len(C.e) \div 2) - 1) :
       IF Outside(C, p) THEN Cell(out, p) = Cell(C.e, p)
       ELSE LET q == p - C.off  big == q \div C.s  low == q % C.s IN
            Cell(out, p) = (IF C.o = "D" THEN F(low, big) ELSE F(big, low))
\* alpha op(A) op(B) + beta C
Value(alpha, opa, A, opb, B, beta, C, i, j) ==
  Add(Mul(alpha, Inner(opa, A, opb, B, i, j)), IF beta = Zero THEN Zero ELSE Mul(beta, At(C, i, j)))
\* a matrix that is returned: sizes and elements, columns one after the other
Returned(n0, n1, e, F(_, _)) ==
  /\ e.sz = <<n0, n1>> /\ Len(e.out) = 2 * n0 * n1
  /\ \A i \in 0..(n0 - 1) : \A j \in 0..(n1 - 1) : Cell(e.out, (j * n0) + i) = F(i, j)
One == <<1, 0>>
Fit(e) == CASE e.op \in {"gemm", "gemv"} -> Fits(e.opa, e.A, e.opb, e.B, e.C)
            [] e.op \in {"axpy", "axpby", "madd"} -> e.A.n0 = e.C.n0 /\ e.A.n1 = e.C.n1
            [] e.op = "vdot" -> e.A.n0 = e.B.n0
            [] e.op = "dot" -> Cols(e.opa, e.A) = Rows(e.opb, e.B)
            [] OTHER -> TRUE
Right(e) ==
  IF ~Fit(e) THEN e.st = "abort"
  ELSE /\ e.st = "ok" /\ e.kept
       /\ CASE e.op \in {"gemm", "gemv"} ->
                 LET F(i, j) == Value(e.alpha, e.opa, e.A, e.opb, e.B, e.beta, e.C, i, j) IN Holds(e.C, e.out, F)
            [] e.op \in {"axpy", "axpby", "madd"} ->
                 LET b == IF e.op = "axpy" THEN One ELSE e.beta
                     F(i, j) == Add(Mul(e.alpha, At(e.A, i, j)), Mul(b, At(e.C, i, j))) IN Holds(e.C, e.out, F)
            \* scalar products: opa, opb "S" means conjugated
            [] e.op = "vdot" ->
                 LET F(i, j) == Inner(IF e.opa = "S" THEN "S" ELSE "T", e.A, "N", IF e.opb = "S" THEN Conjugate(e.B) ELSE e.B, 0, 0) IN Returned(1, 1, e, F)
            [] e.op = "dot" ->
                 LET F(i, j) == Inner(e.opa, e.A, e.opb, e.B, i, j) IN Returned(Rows(e.opa, e.A), Cols(e.opb, e.B), e, F)
            [] e.op = "cross2" ->
                 LET F(i, j) == IF i = 0 THEN Mul(<<-1, 0>>, At(e.A, 1, 0)) ELSE At(e.A, 0, 0) IN Returned(2, 1, e, F)
            [] e.op = "cross3" ->
                 LET a(i) == At(e.A, i % 3, 0)  b(i) == At(e.B, i % 3, 0)
                     F(i, j) == Add(Mul(a(i + 1), b(i + 2)), Mul(<<-1, 0>>, Mul(a(i + 2), b(i + 1)))) IN Returned(3, 1, e, F)
=============================================================================
