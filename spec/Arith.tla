-------------------------------- MODULE Arith --------------------------------
(* Exact integer arithmetic on unbounded integers: an integer is [s: -1, 0 or 1, m: the
   magnitude, little-endian in base 4096, without leading zero].  The functions of
   il/core/math/safe_arithmetic.h and il/math.h are decided against it. *)
EXTENDS Integers, Sequences
Base == 4096
RECURSIVE Trim(_), Carry(_, _, _), FromNat(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] /= 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o FromNat(n \div Base)
Dig(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0
\* digits (any naturals) from position i on, with a carry
Carry(d, i, c) == IF i > Len(d) THEN FromNat(c) ELSE <<(d[i] + c) % Base>> \o Carry(d, i + 1, (d[i] + c) \div Base)
MAdd(x, y) == Trim(Carry([i \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) |-> Dig(x, i) + Dig(y, i)], 1, 0))
RECURSIVE Conv(_, _, _, _), MCmpAt(_, _, _), Borrow(_, _, _, _)
Conv(x, y, k, i) == IF i > k THEN 0 ELSE Dig(x, i) * Dig(y, k + 1 - i) + Conv(x, y, k, i + 1)
MMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Trim(Carry([k \in 1..(Len(x) + Len(y) - 1) |-> Conv(x, y, k, 1)], 1, 0))
MCmpAt(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE MCmpAt(x, y, i - 1)
MCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE MCmpAt(x, y, Len(x))
Borrow(x, y, i, b) == IF i > Len(x) THEN <<>> ELSE LET v == x[i] - Dig(y, i) - b IN <<IF v < 0 THEN v + Base ELSE v>> \o Borrow(x, y, i + 1, IF v < 0 THEN 1 ELSE 0)
MSub(x, y) == Trim(Borrow(x, y, 1, 0))                     \* x >= y
Mk(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]
Num(n) == IF n >= 0 THEN Mk(1, FromNat(n)) ELSE Mk(-1, FromNat(-n))
Zero == Num(0)
Neg(x) == [x EXCEPT !.s = -x.s]
Add(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN Mk(x.s, MAdd(x.m, y.m))
  ELSE LET c == MCmp(x.m, y.m) IN IF c = 0 THEN Zero ELSE IF c = 1 THEN Mk(x.s, MSub(x.m, y.m)) ELSE Mk(y.s, MSub(y.m, x.m))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero ELSE Mk(x.s * y.s, MMul(x.m, y.m))
Cmp(x, y) == Sub(x, y).s
Le(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
Abs(x) == IF x.s < 0 THEN Neg(x) ELSE x
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN Num(1) ELSE Mul(x, Pow(x, n - 1))
P2Table == [n \in 0..66 |-> Pow(Num(2), n)]
P2(n) == P2Table[n]
\* the values of a type: [signed, width]
MaxOf(ty) == Sub(IF ty.signed THEN ty.half ELSE Mul(Num(2), ty.half), Num(1))
MinOf(ty) == IF ty.signed THEN Neg(ty.half) ELSE Zero
Fits(ty, x) == Le(MinOf(ty), x) /\ Le(x, MaxOf(ty))
Half32 == P2(31)
Half64 == P2(63)
TypeOf(name) ==
  CASE name = "int"   -> [signed |-> TRUE, half |-> Half32]
    [] name = "uint"  -> [signed |-> FALSE, half |-> Half32]
    [] name \in {"long", "llong"}   -> [signed |-> TRUE, half |-> Half64]
    [] name \in {"ulong", "ullong"} -> [signed |-> FALSE, half |-> Half64]
\* q = trunc(a / b)
IsQuotient(a, b, q) ==
  LET r == Sub(a, Mul(q, b)) IN Lt(Abs(r), Abs(b)) /\ (r.s = 0 \/ r.s = a.s)
\* r is the least multiple of b that is at least a (b > 0)
IsMultiple(r, b, q) == r = Mul(q, b)
\* r = b * ceil(a / b) is checked from its quotient q, given with it
IsUpper(a, b, r, q) == IsMultiple(r, b, q) /\ Le(a, r) /\ Lt(Sub(r, b), a)
IsLower(a, b, r, q) == IsMultiple(r, b, q) /\ Le(r, a) /\ Lt(a, Add(r, b))
RECURSIVE Prod(_)
Prod(v) == IF v = <<>> THEN Num(1) ELSE Mul(v[1], Prod(Tail(v)))
\* a product of several factors may be refused when the product of some of them does not fit
RECURSIVE Sub1(_)
Sub1(v) == IF v = <<>> THEN {<<>>} ELSE LET t == Sub1(Tail(v)) IN t \cup {<<v[1]>> \o x : x \in t}
SomePartTooBig(ty, v) == \E x \in Sub1(v) : x /= <<>> /\ ~Fits(ty, Prod(x))
\* exact(value) or an error, and an error exactly when it does not fit
Exact(ty, e, x) == IF Fits(ty, x) THEN ~e.err /\ e.r = x ELSE e.err
Right(e) ==
  LET ty == TypeOf(e.ty)  v == e.v IN
  CASE e.op = "sum"     -> e.st = "ok" /\ Exact(ty, e, Add(v[1], v[2]))
    [] e.op = "diff"    -> e.st = "ok" /\ Exact(ty, e, Sub(v[1], v[2]))
    [] e.op = "prod2"   -> e.st = "ok" /\ Exact(ty, e, Mul(v[1], v[2]))
    [] e.op = "prods"   -> e.st = "ok" /\ (IF e.err THEN SomePartTooBig(ty, v) ELSE e.r = Prod(v) /\ Fits(ty, Prod(v)))
    [] e.op = "double"  -> e.st = "ok" /\ Exact(ty, e, Mul(v[1], Num(2)))
    [] e.op = "div"     -> e.st = "ok" /\ (IF v[2].s = 0 \/ (v[2] = Num(-1) /\ v[1] = MinOf(ty) /\ ty.signed) THEN e.err ELSE ~e.err /\ IsQuotient(v[1], v[2], e.r))
    [] e.op = "upper"   -> IF v[1].s < 0 \/ v[2].s <= 0 THEN e.st = "abort"
                           ELSE e.st = "ok" /\ (IF e.err THEN e.q.s > 0 /\ Lt(Mul(Sub(e.q, Num(1)), v[2]), v[1]) /\ Le(v[1], Mul(e.q, v[2])) /\ ~Fits(ty, Mul(e.q, v[2])) ELSE IsUpper(v[1], v[2], e.r, e.q) /\ Fits(ty, e.r))
    [] e.op = "conv"    -> e.st = "ok" /\ Exact(TypeOf(e.to), e, v[1])
    [] e.op = "floor"   -> e.st = "ok" /\ IsLower(v[1], v[2], e.r, e.q)
    [] e.op = "abs"     -> e.st = "ok" /\ e.r = Abs(v[1])
    \* the greatest and the least of several values; fractions are given in eighths
    [] e.op = "max"     -> e.st = "ok" /\ (\E k \in 1..Len(v) : e.r = v[k]) /\ (\A k \in 1..Len(v) : Le(v[k], e.r))
    [] e.op = "min"     -> e.st = "ok" /\ (\E k \in 1..Len(v) : e.r = v[k]) /\ (\A k \in 1..Len(v) : Le(e.r, v[k]))
    [] e.op = "absd"    -> e.st = "ok" /\ e.r = Abs(v[1])
    [] e.op = "floord"  -> e.st = "ok" /\ Le(Mul(Num(8), e.r), v[1]) /\ Lt(v[1], Mul(Num(8), Add(e.r, Num(1))))
    [] e.op = "cabs"    -> e.st = "ok" /\ e.r.s >= 0 /\ Mul(e.r, e.r) = Add(Mul(v[1], v[1]), Mul(v[2], v[2]))
    [] e.op = "conj"    -> e.st = "ok" /\ e.r = Neg(v[2])
    [] e.op = "real"    -> e.st = "ok" /\ e.r = v[1]
    \* infinities and the undefined value are the codes 1, 2, 3; 0 is a finite value
    [] e.op = "finite"  -> e.st = "ok" /\ e.r = Num(IF v[1] = Zero /\ v[2] = Zero THEN 1 ELSE 0)
    [] e.op = "ipow"    -> e.st = "ok" /\ e.r = Pow(v[1], e.n)
    [] e.op = "nextp2"  -> e.st = "ok" /\ (\E k \in 0..64 : e.r = P2(k)) /\ Le(v[1], e.r) /\ Lt(e.r, Mul(v[1], Num(2)))
    [] e.op = "prevp2"  -> e.st = "ok" /\ (\E k \in 0..64 : e.r = P2(k)) /\ Le(e.r, v[1]) /\ Lt(v[1], Mul(e.r, Num(2)))
    [] e.op = "log2"    -> e.st = "ok" /\ Le(v[1], P2(e.n)) /\ (e.n > 0 => Lt(P2(e.n - 1), v[1]))
=============================================================================
