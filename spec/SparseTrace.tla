------------------------------ MODULE SparseTrace ------------------------------
(* What the real functions did: three matrices m, the owner of the analysis of Pardiso (0 none, -1
   gone) and whether it is factorised, and the owner of the incomplete factorisation of GmresIlu0. *)
EXTENDS Sparse, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, m, an, num, ilu
Like(A) == IF A.n0 = 0 THEN [A EXCEPT !.row = <<>>] ELSE A
Given(e) == Like([n0 |-> e.n0, n1 |-> e.n1, row |-> e.row, col |-> e.col, el |-> e.el])
\* slot k now holds A; the matrix that was there is gone
Put(k, A) == /\ m' = [m EXCEPT ![k] = A]
             /\ an' = (IF an = k THEN -1 ELSE an) /\ ilu' = (IF ilu = k THEN -1 ELSE ilu) /\ UNCHANGED num
Moved(k, j) == LET own(x) == IF x = j THEN k ELSE IF x = k THEN -1 ELSE x IN
               /\ m' = (IF k = j THEN m ELSE [m EXCEPT ![k] = m[j], ![j] = None])
               /\ an' = (IF k = j THEN an ELSE own(an)) /\ ilu' = (IF k = j THEN ilu ELSE own(ilu)) /\ UNCHANGED num
Same == UNCHANGED <<m, an, num, ilu>>
\* done: what holds when it may be done
Only(fits, e, done) == IF fits THEN e.st = "ok" /\ done ELSE e.st = "abort" /\ Same
Square(A) == A.n0 = A.n1
Shown(e) == /\ e.m = m' /\ e.same
Act(e) ==
  CASE e.op = "make" -> Only(Len(e.row) = e.n0 + 1 /\ Len(e.col) = Len(e.el), e, Put(e.k, Given(e)))
    [] e.op = "pos" -> LET A == OfPositions(e.n0, e.pos) IN
                       Only(InRange(e.n0, e.pos), e, e.index = IndexOf(A, e.pos) /\ Put(e.k, Filled(A, e.index, e.v)))
    [] e.op = "set" -> LET A == m[e.k]
                           p == IF e.form = 1 THEN (IF e.i \in 0..(A.n0 - 1) /\ e.p \in 0..(A.row[e.i + 2] - A.row[e.i + 1] - 1) THEN A.row[e.i + 1] + e.p ELSE -1) ELSE e.p IN
                       Only(p \in 0..(Len(A.el) - 1), e, m' = [m EXCEPT ![e.k].el[p + 1] = e.val] /\ UNCHANGED <<an, num, ilu>>)
    [] e.op = "copy" -> e.st = "ok" /\ (IF e.k = e.j THEN Same ELSE Put(e.k, m[e.j]))
    [] e.op = "move" -> e.st = "ok" /\ Moved(e.k, e.j)
    [] e.op = "mv" -> LET A == m[e.k] IN
                      Only(Len(e.x) = A.n1 /\ Len(e.y) = A.n0, e, e.kept /\ e.out = Product(A, e.alpha, e.x, e.beta, e.y) /\ Same)
    [] e.op = "dot" -> Only(m[e.k].n1 = m[e.j].n0, e, IsDot(e.m[e.l], m[e.k], m[e.j]) /\ Put(e.l, e.m[e.l]))
    [] e.op = "norm" -> LET A == m[e.k] IN
                        Only(e.kind = "Linf" /\ Len(e.alpha) = A.n1 /\ Len(e.beta) = A.n0, e, e.nrm = NormLinf(A, e.alpha, e.beta, e.scl) /\ Same)
    [] e.op = "ana" -> Only(Square(m[e.k]), e, an' = e.k /\ num' = FALSE /\ UNCHANGED <<m, ilu>>)
    [] e.op = "num" -> Only(an = e.k, e, num' = TRUE /\ UNCHANGED <<m, an, ilu>>)
    [] e.op = "sol" -> Only(an = e.k /\ num /\ Len(e.b) = m[e.k].n0, e, e.kept /\ Solves(m[e.k], e.D, e.b, e.sol) /\ Same)
    [] e.op = "pre" -> Only(Square(m[e.k]), e, ilu' = e.k /\ UNCHANGED <<m, an, num>>)
    [] e.op = "gm" -> Only(ilu = e.k /\ Len(e.b) = m[e.k].n0, e, e.kept /\ Solves(m[e.k], e.D, e.b, e.sol) /\ e.it \in 0..e.most /\ Same)
    [] e.op = "npy" -> e.st = "ok" /\ Put(e.k, m[e.j])
Step(e) ==
  CASE e.op = "RESET" -> m' = <<None, None, None>> /\ an' = 0 /\ ilu' = 0 /\ num' = FALSE
    [] e.op = "END"   -> Same
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Act(e) /\ Shown(e)
Init == i = 1 /\ m = <<None, None, None>> /\ an = 0 /\ ilu = 0 /\ num = FALSE
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, m, an, num, ilu>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
