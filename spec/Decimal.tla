------------------------------- MODULE Decimal -------------------------------
(* Natural numbers of any size as sequences of digits in base 10^4, least significant first,
   and when a binary floating point number is the nearest one to a decimal.                 *)
EXTENDS Integers, Sequences
B == 10000
RECURSIVE BMul(_, _, _, _)
\* the digits of x from position i on, times s (s <= 10^4), plus carry
BMul(x, s, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o BMul(x, s, i, c \div B))
                    ELSE LET y == x[i] * s + c IN <<y % B>> \o BMul(x, s, i + 1, y \div B)
Times(x, s) == BMul(x, s, 1, 0)
RECURSIVE Times2(_, _)
Times2(x, n) == IF n <= 0 THEN x ELSE IF n >= 13 THEN Times2(Times(x, 8192), n - 13) ELSE Times(x, 2 ^ n)
RECURSIVE Times10(_, _)
Times10(x, n) == IF n <= 0 THEN x ELSE IF n >= 4 THEN Times10(<<0>> \o x, n - 4) ELSE Times(x, 10 ^ n)
RECURSIVE Strip(_)
Strip(x) == IF x /= <<>> /\ x[Len(x)] = 0 THEN Strip(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE LessAt(_, _, _)
LessAt(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] /= y[i] THEN x[i] < y[i] ELSE LessAt(x, y, i - 1)
Less(x0, y0) == LET x == Strip(x0)  y == Strip(y0) IN IF Len(x) /= Len(y) THEN Len(x) < Len(y) ELSE LessAt(x, y, Len(x))
At0(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) == IF i > Len(x) /\ i > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == At0(x, i) + At0(y, i) + c IN <<s % B>> \o AddFrom(x, y, i + 1, s \div B)
Plus(x, y) == AddFrom(x, y, 1, 0)
RECURSIVE FromDigits(_, _)
\* the number written in decimal by the digits d[1..n], most significant first
FromDigits(d, n) == IF n <= 0 THEN <<>> ELSE
  LET k == IF n >= 4 THEN n - 3 ELSE 1
      RECURSIVE Val(_, _)
      Val(i, acc) == IF i > n THEN acc ELSE Val(i + 1, acc * 10 + d[i])
  IN <<Val(k, 0)>> \o FromDigits(d, k - 1)
Max0(n) == IF n > 0 THEN n ELSE 0
\* m * 2^e (m in base 10^4) is one of the nearest numbers with that spacing to the decimal d * 10^k:
\*   |2 d 10^k - 2 m 2^e| <= 2^e
Nearest(d, k, m, e) ==
  LET L == Times(Times2(Times10(FromDigits(d, Len(d)), Max0(k)), Max0(0 - e)), 2)
      u == Times2(Times10(<<1>>, Max0(0 - k)), Max0(e))
      M == Times(Times2(Times10(m, Max0(0 - k)), Max0(e)), 2)
  IN ~Less(Plus(M, u), L) /\ ~Less(Plus(L, u), M)
=============================================================================
