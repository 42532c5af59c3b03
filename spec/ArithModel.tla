----------------------------- MODULE ArithModel -----------------------------
(* (1) The unbounded integers of Arith agree with those of TLC where both exist.
   (2) The range tests that il/core/math/safe_arithmetic.h makes before computing, modelled
       at every width from 2 to W bits, refuse a result exactly when it does not fit, and no
       intermediate value of the tests themselves overflows. *)
EXTENDS Arith, FiniteSets, TLC
CONSTANT W
VARIABLES w, a, b
Val(x) == x.s * (Dig(x.m, 1) + Dig(x.m, 2) * Base)
Small == -70..70
ASSUME \A x, y \in Small : Val(Add(Num(x * 50), Num(y * 50))) = (x + y) * 50
ASSUME \A x, y \in Small : Val(Sub(Num(x * 99), Num(y * 99))) = (x - y) * 99
ASSUME \A x, y \in Small : Val(Mul(Num(x * 40), Num(y * 40))) = x * y * 1600
ASSUME \A x, y \in Small : Cmp(Num(x * 97), Num(y * 97)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
ASSUME Half32 = Add(Num(2147483647), Num(1))
Hi(n) == 2 ^ (n - 1) - 1
Lo(n) == -(2 ^ (n - 1))
In(n, x) == Lo(n) <= x /\ x <= Hi(n)
Tr(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
SumTest(n, x, y) == IF y > 0 THEN x > Hi(n) - y ELSE x < Lo(n) - y
DiffTest(n, x, y) == IF y > 0 THEN x < Lo(n) + y ELSE x > Hi(n) + y
ProdTest(n, x, y) ==
  IF y > 0 THEN x > Tr(Hi(n), y) \/ x < Tr(Lo(n), y)
  ELSE IF y < -1 THEN x > Tr(Lo(n), y) \/ x < Tr(Hi(n), y) ELSE y = -1 /\ x = Lo(n)
UHi(n) == 2 ^ n - 1
USumTest(n, x, y) == x > UHi(n) - y
UProdTest(n, x, y) == y > 0 /\ x > UHi(n) \div y
Init == w \in 2..W /\ a \in Lo(w)..UHi(w) /\ b \in Lo(w)..UHi(w)
Next == FALSE /\ UNCHANGED <<w, a, b>>
Spec == Init /\ [][Next]_<<w, a, b>>
Signed == In(w, a) /\ In(w, b)
Unsigned == a >= 0 /\ b >= 0
Tests ==
  /\ Signed => /\ SumTest(w, a, b) = ~In(w, a + b)
               /\ DiffTest(w, a, b) = ~In(w, a - b)
               /\ ProdTest(w, a, b) = ~In(w, a * b)
               /\ In(w, IF b > 0 THEN Hi(w) - b ELSE Lo(w) - b)
               /\ In(w, IF b > 0 THEN Lo(w) + b ELSE Hi(w) + b)
               /\ (b \notin {0, -1}) => In(w, Tr(Lo(w), b)) /\ In(w, Tr(Hi(w), b))
  /\ Unsigned => /\ USumTest(w, a, b) = (a + b > UHi(w))
                 /\ UProdTest(w, a, b) = (a * b > UHi(w))
=============================================================================
