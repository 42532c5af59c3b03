----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, i
Observed(e, b) ==
  /\ e.cells = b.c /\ e.pad /\ e.faults = 0
  /\ \A s \in Slots : LET o == e.obs[s]  v == b.v[s] IN
       /\ o.on = v.on
       /\ v.on => o.w = v.w /\ o.ext = v.ext /\ o.al = v.al /\ o.val = Entries(b, s)
Step(e) ==
  CASE e.op = "RESET" -> a' = Empty
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = Empty
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, e) IN
         /\ e.st = "ok" \/ ~p.ok \/ p.may
         /\ e.st = "ok" => p.ok /\ e.got = p.r /\ a' = p.a
         /\ e.st = "abort" => e.got = <<>> /\ a' = a
         /\ Observed(e, a')
Init == a = Empty /\ i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
