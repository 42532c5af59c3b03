------------------------------- MODULE IterTrace -------------------------------
(* What real solvers did.  Two solvers; of each: the kind, operator and preconditioner, the steps
   before a restart (kd), the limits, and for a system solved step by step the right-hand side, the
   number of steps, and whether the residual vanished (up to rounding), after which further steps of
   GMRES have nothing to work on.                                                                  *)
EXTENDS Iter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
No == [kind |-> "", A |-> <<>>, P |-> <<>>, kd |-> 0, rel |-> 0, abs |-> 0, lim |-> 0, b |-> <<>>, k |-> -1, tiny |-> FALSE]
N(v) == Len(v.A)
Square(A) == \A q \in 1..Len(A) : Len(A[q]) = Len(A)
Restarts(v, deg) == v.kind = "gm" /\ v.kd < deg
\* the solution after k steps without a restart, as far as the event tells it: want is the step
\* the event has numbers for (0: the exact solution)
Steps(v, b, k, e) ==
  LET deg == Degree(v.A, v.P, b)
      z(j) == Z(v.A, v.P, b, j) IN
  IF k = 0 THEN Null(e.hx)
  ELSE IF k >= deg /\ e.want = 0 THEN Exact(v.A, b, e.den, e.hx)
  ELSE IF k # e.want \/ k >= deg THEN TRUE
  ELSE IF k = 1 THEN e.den = Den1(v.kind, v.A, v.P, b) /\ e.hx = By(Num1(v.kind, v.A, v.P, b), z(1))
  ELSE /\ e.ws = [j \in 1..k |-> Test(v.kind, v.A, z(j))]
       /\ e.ps = (IF N(v) = 3 THEN <<Prime(Cross(z(1), z(2)))>> ELSE <<>>)
       /\ \A q \in 1..Len(e.ortho) : e.ortho[q] \in -1..1
\* st: "ok", or "abort" for a call that must not be made
Only(fits, e, done) == IF fits THEN e.st = "ok" /\ done ELSE e.st = "abort" /\ UNCHANGED s
Solve(v, e) ==
  LET deg == Degree(v.A, v.P, e.b)
      rel == IF v.kind = "gm" THEN e.rel ELSE v.rel
      lim == IF v.kind = "gm" THEN e.lim ELSE v.lim
      abs == IF v.kind = "gm" THEN 0 ELSE v.abs
      sharp == rel >= 1000000
      early == IF sharp THEN (IF deg = 1 THEN "yes" ELSE IF N(v) <= 3 THEN "no" ELSE "tie")
               ELSE IF e.e1 THEN Enough1(v.kind, v.A, v.P, e.b, rel) ELSE "tie" IN
  /\ e.kept
  /\ e.normsame
  /\ IF deg = 0 THEN e.rep /\ e.it = 0 /\ Null(e.hx)
     ELSE IF abs >= 1000 THEN e.rep /\ e.it = 0 /\ Null(e.hx)
     ELSE IF lim = 0 THEN ~e.rep /\ e.it = 0 /\ Null(e.hx)
     ELSE /\ e.it \in 1..lim
          /\ IF e.rep THEN e.met ELSE e.miss /\ e.it = lim
          /\ early = "yes" => e.rep /\ e.it = 1
          /\ (early = "no" /\ lim > 1) => e.it > 1
          /\ ~Restarts(v, deg) =>
               /\ lim >= deg => e.rep /\ e.it <= deg
               /\ (sharp /\ N(v) <= 3) => e.it = (IF lim < deg THEN lim ELSE deg) /\ (e.rep <=> lim >= deg)
               /\ (sharp \/ e.it = 1) => Steps(v, e.b, e.it, e)
          /\ (e.rep /\ rel >= 1000000000 /\ e.want = 0 /\ e.den <= 20) => Exact(v.A, e.b, e.den, e.hx)
Advance(v, e) ==
  LET deg == Degree(v.A, v.P, v.b) IN
  IF v.tiny THEN /\ e.it \in v.k..(v.k + 1)
                 /\ v.kind = "cg" => e.normsame /\ e.tiny /\ Steps(v, v.b, e.it, e)
  ELSE /\ e.normsame
       /\ e.it = v.k + 1
       /\ v.kind = "gm" => e.mono
       /\ ~Restarts(v, deg) => (e.it >= deg => e.tiny) /\ Steps(v, v.b, e.it, e)
Act(e) ==
  LET v == s[e.k] IN
  CASE e.op = "new" -> Only(Square(e.A) /\ (e.P = <<>> \/ Len(e.P) = Len(e.A)), e,
                            s' = [s EXCEPT ![e.k] = [No EXCEPT !.kind = e.kind, !.A = e.A, !.P = e.P, !.kd = e.kd, !.rel = 1000000, !.lim = 100]])
    [] e.op = "solve" -> Only(Len(e.b) = N(v) /\ e.nx = N(v), e, Solve(v, e) /\ s' = [s EXCEPT ![e.k].k = -1])
    [] e.op = "begin" -> Only(Len(e.b) = N(v), e, e.kept /\ e.normsame /\ e.it = 0 /\ Null(e.hx) /\ s' = [s EXCEPT ![e.k].k = 0, ![e.k].b = e.b, ![e.k].tiny = Null(e.b)])
    [] e.op = "next" -> Only(TRUE, e, Advance(v, e) /\ s' = [s EXCEPT ![e.k].k = e.it, ![e.k].tiny = v.tiny \/ e.tiny])
    [] e.op = "par" -> Only(TRUE, e, e.same /\ s' = [s EXCEPT ![e.k].rel = e.rel, ![e.k].abs = e.abs, ![e.k].lim = e.lim])
Step(e) ==
  CASE e.op = "RESET" -> s' = <<No, No>>
    [] e.op = "END"   -> UNCHANGED s
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Act(e)
Init == i = 1 /\ s = <<No, No>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, s>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
