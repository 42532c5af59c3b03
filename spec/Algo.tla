--------------------------------- MODULE Algo ---------------------------------
(* What the functions of il/algorithm/algorithmArray.h must return.  Arrays are sequences of
   integers (the elements of the real arrays are a fixed multiple of them); positions are
   0-based as in the code; a range is lo..hi-1. *)
EXTENDS Integers, Sequences, FiniteSets
AbsV(x) == IF x < 0 THEN -x ELSE x
Ix(lo, hi) == (lo + 1)..hi                                    \* 1-based positions of the range
IsMin(v, lo, hi, x) == (\E i \in Ix(lo, hi) : v[i] = x) /\ \A i \in Ix(lo, hi) : x <= v[i]
IsMax(v, lo, hi, x) == (\E i \in Ix(lo, hi) : v[i] = x) /\ \A i \in Ix(lo, hi) : x >= v[i]
IsMaxAbs(v, lo, hi, x) == (\E i \in Ix(lo, hi) : AbsV(v[i]) = x) /\ \A i \in Ix(lo, hi) : x >= AbsV(v[i])
In(lo, hi, i) == lo <= i /\ i < hi
Sorted(v) == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
Times(v, x) == Cardinality({i \in 1..Len(v) : v[i] = x})
SameBag(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Times(v, v[i]) = Times(w, v[i])
RECURSIVE Sum(_), SumSq(_, _)
Sum(v) == IF v = <<>> THEN 0 ELSE v[1] + Sum(Tail(v))
SumSq(v, m) == IF v = <<>> THEN 0 ELSE (v[1] - m) * (v[1] - m) + SumSq(Tail(v), m)
Tr(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)
\* Long arrays are given as blocks <<value, count, step>> (flattened) and the result as runs <<value, count>>.
RECURSIVE InBlocks(_, _, _), AllBlocks(_, _), AllRuns(_, _)
OneBlock(b, k, x) == IF b[k + 2] = 0 THEN (IF b[k] = x THEN b[k + 1] ELSE 0)
                     ELSE LET d == (x - b[k]) * (IF b[k + 2] < 0 THEN -1 ELSE 1)  t == AbsV(b[k + 2]) IN
                          IF d >= 0 /\ d % t = 0 /\ d \div t < b[k + 1] THEN 1 ELSE 0
InBlocks(b, k, x) == IF k > Len(b) THEN 0 ELSE OneBlock(b, k, x) + InBlocks(b, k + 3, x)
AllBlocks(b, k) == IF k > Len(b) THEN 0 ELSE b[k + 1] + AllBlocks(b, k + 3)
AllRuns(r, k) == IF k > Len(r) THEN 0 ELSE r[k + 1] + AllRuns(r, k + 2)
DeepSorted(b, r) == LET n == Len(r) \div 2 IN
  /\ \A i \in 1..(n - 1) : r[(2 * i) - 1] < r[(2 * i) + 1]
  /\ \A i \in 1..n : r[2 * i] = InBlocks(b, 1, r[(2 * i) - 1])
  /\ AllRuns(r, 1) = AllBlocks(b, 1)
\* e.whole: the element type has no fractions.  e.r: the results; e.after: the array after the call
Right(e) ==
  LET v == e.v  n == Len(v)  lo == e.lo  hi == e.hi
      Needs(c, good) == IF ~c THEN e.st = "abort" /\ e.after = v ELSE e.st = "ok" /\ Len(e.r) > 0 /\ good
      Reads(good) == Needs(lo < hi /\ 0 <= lo /\ hi <= n, good /\ e.after = v)
      \* Of the types with fractions, n times the mean and n times the degrees of freedom times
      \* the variance are reported; of the whole ones, the mean (exact in the calls made) and variance.
      Dof == n - e.sample
      Mean == IF e.whole THEN Tr(Sum(v), n) ELSE Sum(v)
      Var == IF e.whole THEN Tr(SumSq(v, Tr(Sum(v), n)), Dof) ELSE (n * SumSq(v, 0)) - (Sum(v) * Sum(v))
  IN CASE e.op = "min" -> Reads(IsMin(v, lo, hi, e.r[1]))
       [] e.op = "max" -> Reads(IsMax(v, lo, hi, e.r[1]))
       [] e.op = "maxabs" -> Reads(IsMaxAbs(v, lo, hi, e.r[1]))
       [] e.op = "imin" -> Reads(In(lo, hi, e.r[1]) /\ IsMin(v, lo, hi, v[e.r[1] + 1]))
       [] e.op = "imax" -> Reads(In(lo, hi, e.r[1]) /\ IsMax(v, lo, hi, v[e.r[1] + 1]))
       [] e.op = "imaxabs" -> Reads(In(lo, hi, e.r[1]) /\ IsMaxAbs(v, lo, hi, AbsV(v[e.r[1] + 1])))
       [] e.op = "minmax" -> Reads(IsMin(v, lo, hi, e.r[1]) /\ IsMax(v, lo, hi, e.r[2]))
       [] e.op = "minmax2d" -> Reads(e.sample = 0 /\ IsMin(v, lo, hi, e.r[1]) /\ IsMax(v, lo, hi, e.r[2]))
       [] e.op = "sort" -> e.st = "ok" /\ e.r = <<>> /\ Sorted(e.after) /\ SameBag(v, e.after)
       [] e.op = "deep" -> e.st = "ok" /\ e.after = <<>> /\ DeepSorted(v, e.r)
       [] e.op = "sorted" -> e.st = "ok" /\ e.after = v /\ Sorted(e.r) /\ SameBag(v, e.r)
       [] e.op = "bisect" -> e.st = "ok" /\ e.after = v /\ (IF \E i \in 1..n : v[i] = e.x THEN In(0, n, e.r[1]) /\ v[e.r[1] + 1] = e.x ELSE e.r[1] < 0)
       [] e.op = "mean" -> Needs(n > 0, e.after = v /\ e.r[1] = Mean)
       [] e.op = "variance" -> Needs(n > e.sample, e.after = v /\ e.r[1] = Var)
       [] e.op = "meanvar" -> Needs(n > e.sample, e.after = v /\ e.r[1] = Mean /\ e.r[2] = Var)
=============================================================================
