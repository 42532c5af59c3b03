----------------------------- MODULE StatusTrace -----------------------------
EXTENDS Status, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, kind, mode, i
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on
       /\ (w.on /\ ~w.lost /\ kind = "info") => o.tab = Table(w.q) /\ o.empty = (w.q = <<>>)
       /\ (w.on /\ ~w.lost /\ kind = "status" /\ mode = "checked" /\ ~w.ok) => o.tab = Table(w.q)
       /\ (w.on /\ kind = "status" /\ mode = "checked") => o.chk = w.chk
       /\ (w.on /\ ~w.lost /\ kind = "status" /\ ~w.ok /\ ~w.chk) => o.err = w.err /\ o.dom = Domain(w.err)
  /\ e.faults = 0
Init == a = AllOff /\ kind = "" /\ mode = "" /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ kind' = e.hdr[1] /\ mode' = e.hdr[2]
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED <<kind, mode>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(kind, a, e) IN Observed(e, p) /\ a' = p.a /\ UNCHANGED <<kind, mode>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, kind, mode, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
