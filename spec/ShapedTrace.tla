----------------------------- MODULE ShapedTrace -----------------------------
EXTENDS Shaped, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, kind, cls, i
RECURSIVE Total(_, _)
Total(b, k) == IF k = 0 THEN 0 ELSE Len(b[k].v) + Total(b, k - 1)
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on /\ o.lost = w.lost
       /\ w.on /\ ~w.lost =>
          /\ o.n = w.n /\ o.v = w.v /\ o.same
          /\ (kind \in {"lower", "upper"} => o.cap >= w.n[1])
  /\ e.faults = 0
  /\ (cls /\ kind \in {"lower", "upper"} => e.live = Total(p.a, NSlots))
Init == a = AllOff /\ kind = "box" /\ cls = FALSE /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ kind' = e.hdr[1] /\ cls' = (e.hdr[2] = "tracked")
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED <<kind, cls>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, kind, e) IN
         /\ Observed(e, p)
         /\ (cls => \A k \in 1..Len(e.pre) : e.pre[k] = 0)
         /\ a' = p.a /\ UNCHANGED <<kind, cls>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, kind, cls, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
