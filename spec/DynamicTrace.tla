---------------------------- MODULE DynamicTrace ----------------------------
EXTENDS Dynamic, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, i
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots : e.obs[s].on = p.a[s].on /\ (p.a[s].on => e.obs[s].v = p.a[s].v)
  /\ e.faults = 0
Init == a = AllOff /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, e) IN Observed(e, p) /\ a' = p.a
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
