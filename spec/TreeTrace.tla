----------------------------- MODULE TreeTrace -----------------------------
EXTENDS Tree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, cls, n, i
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on /\ o.lost = w.lost
       /\ w.on /\ ~w.lost =>
          /\ o.same /\ o.depth = Depth(w.t)
          /\ Len(o.nodes) = Cardinality(DOMAIN w.t)
          /\ {<<o.nodes[k].p, o.nodes[k].v, o.nodes[k].e>> : k \in 1..Len(o.nodes)} = {<<q, w.t[q].v, w.t[q].e>> : q \in DOMAIN w.t}
  /\ e.faults = 0
Init == a = AllOff /\ cls = FALSE /\ n = 2 /\ i = 1
Digits == [d \in {"2", "3", "4", "5", "6", "7", "9", "15", "29"} |-> CASE d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "9" -> 9 [] d = "15" -> 15 [] d = "29" -> 29]
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ cls' = (e.hdr[2] = "tracked") /\ n' = Digits[e.hdr[4]]
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED <<cls, n>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, n, e) IN Observed(e, p) /\ a' = p.a /\ UNCHANGED <<cls, n>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, cls, n, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
