------------------------------- MODULE DenseGen -------------------------------
(* Every small product: shapes, transpositions, orders, room around the windows, scalars.
   Laws of the definition are checked on each; each is then run on the real functions.        *)
EXTENDS Dense, TLC, Json
CONSTANTS Max, Sc
VARIABLES o, done
Scalars == IF Sc = 1 THEN {<<0, 0>>, <<1, 0>>, <<2, -1>>} ELSE {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<2, -1>>}
\* some matrix with room around it
Mat(order, n0, n1, pad, x) ==
  LET s == (IF order = "D" THEN n0 ELSE n1) + pad   big == IF order = "D" THEN n1 ELSE n0
      st == IF s = 0 THEN 1 ELSE s
      len == pad + (st * big) + pad IN
  [o |-> order, off |-> pad, n0 |-> n0, n1 |-> n1, s |-> st,
   e |-> [q \in 1..(2 * len) |-> ((((q + x) * (q + (3 * x) + 1)) + (q \div 3)) % 7) - 3]]
Ops == {"N", "T", "S"}
Gemm(m, n, k, opa, opb, order, pads, alpha, beta) ==
  [op |-> "gemm", alpha |-> alpha, beta |-> beta, opa |-> opa, opb |-> opb,
   A |-> IF opa = "N" THEN Mat(order, m, k, pads[1], 1) ELSE Mat(order, k, m, pads[1], 1),
   B |-> IF opb = "N" THEN Mat(order, k, n, pads[2], 2) ELSE Mat(order, n, k, pads[2], 2),
   C |-> Mat(order, m, n, pads[3], 4)]
Gemv(m, k, opa, order, pad, alpha, beta) ==
  [op |-> "gemv", alpha |-> alpha, beta |-> beta, opa |-> opa, opb |-> "N",
   A |-> IF opa = "N" THEN Mat(order, m, k, pad, 1) ELSE Mat(order, k, m, pad, 1),
   B |-> Mat("D", k, 1, pad, 2), C |-> Mat("D", m, 1, pad, 4)]
Init == /\ done = FALSE
        /\ \E m \in 0..Max, n \in 0..Max, k \in 0..Max, opa \in Ops, opb \in Ops, order \in {"D", "C"}, pads \in {<<0, 0, 0>>, <<1, 2, 1>>}, alpha \in Scalars, beta \in Scalars :
             o \in {Gemm(m, n, k, opa, opb, order, pads, alpha, beta)} \cup (IF opb = "N" /\ n = 1 THEN {Gemv(m, k, opa, order, pads[1], alpha, beta)} ELSE {})
Next == ~done /\ done' = TRUE /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, done>>
Flip(op) == IF op = "N" THEN "T" ELSE "N"
Star(op) == IF op = "N" THEN "S" ELSE "N"
F(i, j) == Value(o.alpha, o.opa, o.A, o.opb, o.B, o.beta, o.C, i, j)
\* the other order of storage of the same matrix
Turn(M) == [M EXCEPT !.o = IF @ = "D" THEN "C" ELSE "D", !.n0 = M.n1, !.n1 = M.n0]
Laws ==
  \A i \in 0..(o.C.n0 - 1) : \A j \in 0..(o.C.n1 - 1) :
    \* op(A) op(B) = (op(B)^T op(A)^T)^T; rows read as columns are a transposition
    /\ (o.opa /= "S" /\ o.opb /= "S") => Inner(o.opa, o.A, o.opb, o.B, i, j) = Inner(Flip(o.opb), o.B, Flip(o.opa), o.A, j, i)
    /\ (o.opa /= "T" /\ o.opb /= "T") => Inner(o.opa, o.A, o.opb, o.B, i, j) = Conj(Inner(Star(o.opb), o.B, Star(o.opa), o.A, j, i))
    /\ o.opa /= "S" => Inner(o.opa, o.A, o.opb, o.B, i, j) = Inner(Flip(o.opa), Turn(o.A), o.opb, o.B, i, j)
    /\ o.opb /= "S" => Inner(o.opa, o.A, o.opb, o.B, i, j) = Inner(o.opa, o.A, Flip(o.opb), Turn(o.B), i, j)
    \* without a product what is left is beta C
    /\ Cols(o.opa, o.A) = 0 => F(i, j) = Mul(o.beta, At(o.C, i, j))
    \* the result of F is held by exactly one buffer: at the cells of the window, distinct for distinct elements
    /\ \A a \in 0..(o.C.n0 - 1) : \A b \in 0..(o.C.n1 - 1) :
         LET pos(x, y) == IF o.C.o = "D" THEN (y * o.C.s) + x ELSE (x * o.C.s) + y IN (pos(a, b) = pos(i, j)) = (a = i /\ b = j)
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> o, t |-> 0]))
=============================================================================
