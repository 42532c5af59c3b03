------------------------------ MODULE SobolTrace ------------------------------
EXTENDS Sobol, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, known          \* the longest array of points seen in a trace
Shared(p, q) == \A n \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) : \A k \in 1..(IF Len(p[1]) < Len(q[1]) THEN Len(p[1]) ELSE Len(q[1])) : p[n][k] = q[n][k]
Good(e) ==
  /\ e.st = "ok" /\ e.rows = e.n /\ e.cols = e.dim /\ e.within
  /\ Len(e.p) = e.n /\ \A x \in 1..e.n : Len(e.p[x]) = e.dim
  /\ Net(e.p, e.n, e.dim, e.m)
  \* more points or more coordinates begin with the same; e.fine counts cells of one fineness
  /\ (known # <<>> /\ e.n > 0) => Shared(known, e.fine)
\* (as a value: conditions within an action would be taken one after the other, in depth)
Act(e) == (Good(e) = TRUE) /\ known' = IF Len(e.fine) > Len(known) THEN e.fine ELSE known
Step(e) ==
  CASE e.op = "RESET" -> known' = <<>>
    [] e.op = "END"   -> UNCHANGED known
    [] e.op = "CRASH" -> FALSE
    [] e.op = "points" -> Act(e)
Init == i = 1 /\ known = <<>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, known>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
