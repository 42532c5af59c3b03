----------------------------- MODULE DequeTrace -----------------------------
EXTENDS Deque, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, cls, i
RECURSIVE Total(_, _)
Total(b, k) == IF k = 0 THEN 0 ELSE b[k].cap + Total(b, k - 1)
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on
       /\ w.on => o.n = Len(w.v) /\ o.cap = w.cap /\ o.v = w.v /\ o.rv = Rev(w.v)
  /\ e.faults = 0 /\ (cls => e.live = Total(p.a, NSlots))
Init == a = AllOff /\ cls = FALSE /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ cls' = (e.hdr[2] = "tracked")
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED cls
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, e) IN Observed(e, p) /\ a' = p.a /\ UNCHANGED cls
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, cls, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
