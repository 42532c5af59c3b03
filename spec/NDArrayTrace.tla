---------------------------- MODULE NDArrayTrace ----------------------------
EXTENDS NDArray, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, cls, i
RECURSIVE Total(_, _)
Total(b, k) == IF k = 0 THEN 0 ELSE Len(b[k].v) + Total(b, k - 1)
Observed(e, p, old) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s]  u == old[s] IN
       /\ o.on = w.on
       /\ w.on =>
          /\ o.n = w.n
          /\ o.v = w.v
          /\ Leq(w.n, o.cap)
          /\ o.al = w.al
          /\ w.am > 0 /\ Len(w.v) > 0 =>
               /\ o.adr % w.am = w.ar
               /\ \A k \in 1..Len(o.lines) : o.lines[k] % w.al = 0
          /\ o.same
          /\ IF s = e.s THEN (IF p.inplace /\ p.ok THEN o.cap = u.cap /\ ~o.pch ELSE p.ok => Leq(p.least, o.cap))
             ELSE IF "t" \in DOMAIN e /\ s = e.t /\ e.op \in {"new_move", "move_assign"} THEN TRUE
             ELSE o.cap = u.cap /\ ~o.pch
  /\ e.faults = 0
  /\ (cls => e.live = Total(p.a, NSlots))
Init == a = AllOff /\ cls = FALSE /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ cls' = (e.hdr[2] = "tracked")
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED cls
    [] e.op = "CRASH" -> FALSE
    [] OTHER ->
         LET p == Post(a, e) IN
         /\ Observed(e, p, a)
         /\ (cls => \A k \in 1..Len(e.pre) : e.pre[k] = 0)
         /\ (cls /\ p.ok => Len(e.pre) = FreshOf(a, e))
         /\ a' = [s \in Slots |-> [p.a[s] EXCEPT !.cap = IF p.a[s].on THEN e.obs[s].cap ELSE <<>>]]
         /\ UNCHANGED cls
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, cls, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
