------------------------------ MODULE AlgoModel ------------------------------
(* The two non-trivial algorithms as state machines over every small array: bisection
   (binarySearch) and one quicksort partition step (sort_aux) with its recursion, which here
   starts at any size so that the partition is reached on small arrays. A pending range carries the
   depth of the recursion that sorts it: the smaller part is one deeper, the larger part goes on
   at the same depth, so a range at depth d holds at most Len / 2^d elements (Shallow). *)
EXTENDS Algo, TLC
CONSTANTS MaxLen, Vals
VARIABLES alg, v0, v, x, b, e, stack, done
vars == <<alg, v0, v, x, b, e, stack, done>>
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init ==
  /\ alg \in {"bisect", "sort"} /\ v0 \in Seqs /\ v = v0 /\ done = FALSE /\ b = 0 /\ e = Len(v0)
  /\ IF alg = "bisect" THEN Sorted(v0) /\ x \in Vals /\ stack = <<>> ELSE x = (CHOOSE y \in Vals : TRUE) /\ stack = <<<<0, Len(v0), 0>>>>
Bisect ==
  /\ alg = "bisect" /\ e > b + 1
  /\ LET i == b + ((e - b) \div 2) IN IF v[i + 1] <= x THEN b' = i /\ e' = e ELSE e' = i /\ b' = b
  /\ UNCHANGED <<alg, v0, v, x, stack, done>>
Swap(w, i, j) == [w EXCEPT ![i + 1] = w[j + 1], ![j + 1] = w[i + 1]]
Pivot(w, lo, hi) ==
  LET l == hi - 1  m == lo + ((hi - lo) \div 2)  A(i) == w[i + 1] IN
  IF A(lo) < A(l) THEN (IF A(m) < A(lo) THEN lo ELSE IF A(m) > A(l) THEN l ELSE m)
  ELSE (IF A(m) < A(l) THEN l ELSE IF A(lo) < A(m) THEN lo ELSE m)
RECURSIVE Part(_, _, _, _, _)
Part(w, i, j, hi, p) == IF i >= hi - 1 THEN [w |-> Swap(w, hi - 1, j), j |-> j]
                        ELSE IF w[i + 1] < p THEN Part(Swap(w, i, j), i + 1, j + 1, hi, p) ELSE Part(w, i + 1, j, hi, p)
Sort ==
  /\ alg = "sort" /\ stack /= <<>>
  /\ LET lo == stack[1][1]  hi == stack[1][2] IN
     IF hi - lo <= 1 THEN v' = v /\ stack' = Tail(stack)
     ELSE LET p == Pivot(v, lo, hi)  w == Swap(v, hi - 1, p)  r == Part(w, lo, lo, hi, w[hi]) IN
          v' = r.w /\ LET d == stack[1][3]  left == r.j - lo < hi - (r.j + 1) IN
               stack' = IF left THEN <<<<lo, r.j, d + 1>>, <<r.j + 1, hi, d>>>> \o Tail(stack) ELSE <<<<r.j + 1, hi, d + 1>>, <<lo, r.j, d>>>> \o Tail(stack)
  /\ UNCHANGED <<alg, v0, x, b, e, done>>
Stop == ~done /\ (alg = "bisect" => e <= b + 1) /\ (alg = "sort" => stack = <<>>) /\ done' = TRUE /\ UNCHANGED <<alg, v0, v, x, b, e, stack>>
Next == Bisect \/ Sort \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* if the value is present, it is in the interval; if the interval is one element, it decides
Around == (alg = "bisect" /\ \E i \in 1..Len(v) : v[i] = x) => \E i \in Ix(b, e) : v[i] = x
Found == (alg = "bisect" /\ done) => LET r == IF e = b + 1 /\ v[b + 1] = x THEN b ELSE -1 IN
           IF \E i \in 1..Len(v) : v[i] = x THEN r >= 0 ELSE r = -1
Permuted == alg = "sort" => SameBag(v0, v)
\* what is outside the pending ranges separates them
Shallow == \A k \in 1..Len(stack) : (stack[k][2] - stack[k][1]) * (2 ^ stack[k][3]) <= Len(v0)
Order == (alg = "sort" /\ done) => Sorted(v)
Ends == <>done
=============================================================================
