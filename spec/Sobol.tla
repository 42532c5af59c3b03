--------------------------------- MODULE Sobol ---------------------------------
(* Low-discrepancy points.  A coordinate is counted in cells: the whole part of 2^m times it.  With
   the origin, which the generator leaves out, the first 2^m points of a sequence have one point
   in each cell of every coordinate, and so has every later block of 2^m points; for the first two
   coordinates, each box of 2^i times 2^(m-i) cells has one.                                    *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_)
Pow(m) == IF m = 0 THEN 1 ELSE 2 * Pow(m - 1)
\* the points numbered lo..hi-1 of p, of which number 0 is the origin
Block(p, lo, hi, D) == [n \in lo..(hi - 1) |-> IF n = 0 THEN [k \in D |-> 0] ELSE p[n]]
OnePerCell(q, k, cells, width) == Cardinality({q[n][k] \div width : n \in DOMAIN q}) = cells /\ Cardinality(DOMAIN q) = cells
OnePerBox(q, m, M) == \A i \in 0..m : Cardinality({<<q[n][1] \div Pow(M - i), q[n][2] \div Pow(M - (m - i))>> : n \in DOMAIN q}) = Pow(m)
\* M: coordinates are counted in 2^M cells; N points, of which every full block is looked at
Net(p, N, dim, M) ==
  \A m \in 0..M : \A b \in 0..(((N + 1) \div Pow(m)) - 1) :
    LET q == Block(p, b * Pow(m), (b + 1) * Pow(m), 1..dim) IN
    /\ \A k \in 1..dim : OnePerCell(q, k, Pow(m), Pow(M - m))
    /\ dim >= 2 => OnePerBox(q, m, M)
\* --- the sequence of Sobol in its first two coordinates, in the order of Gray codes
RECURSIVE Xor(_, _), Low(_)
Xor(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE ((x + y) % 2) + (2 * Xor(x \div 2, y \div 2))
Low(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Low(n \div 2)                   \* number of zero bits at the end
Odd(k) == <<1, 3, 5, 15, 17, 51, 85, 255>>[k + 1]                      \* direction numbers of x + 1
RECURSIVE Coordinate(_, _, _)
Coordinate(k, n, M) == IF n = 0 THEN 0 ELSE LET l == Low(n) IN
  Xor(Coordinate(k, n - 1, M), (IF k = 1 THEN 1 ELSE Odd(l)) * Pow(M - l - 1))
=============================================================================
