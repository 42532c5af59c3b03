----------------------------- MODULE AssocTrace -----------------------------
EXTENDS Assoc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, kind, ck, cv, bk, i
RECURSIVE Total(_, _)
Total(b, k) == IF k = 0 THEN 0 ELSE Len(b[k].s) + Total(b, k - 1)
RECURSIVE Flat(_, _)
Flat(s, n) == IF n = 0 THEN <<>> ELSE Flat(s, n - 1) \o s[n]
Pairs(f) == {<<f[(2 * j) - 1], f[2 * j]>> : j \in 1..(Len(f) \div 2)}
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on
       /\ w.on =>
          /\ o.n = Len(w.s) /\ o.same
          \* what a search finds, for every key of the universe
          /\ \A k \in 1..Len(o.look) : o.look[k] = (IF k \in Keys(w.s) THEN Val(w.s, k) ELSE -1)
          \* a loop goes over every association once (a MapArray: in order of insertion)
          /\ Len(o.it) = 2 * Len(w.s)
          /\ IF kind = "maparray" THEN o.it = Flat(w.s, Len(w.s))
             ELSE Pairs(o.it) = {w.s[j] : j \in 1..Len(w.s)}
          /\ (kind = "map" => /\ o.bk >= Len(w.s) /\ o.tomb >= 0 /\ o.bk >= Len(w.s) + o.tomb
                              \* no growth within the room which has been reserved
                              /\ (e.s = s /\ p.ok /\ a[s].on /\ e.op \in {"set", "set_io", "setc", "setc_io", "set_self"} /\ Len(w.s) <= a[s].room => o.bk = bk[s]))
  /\ e.faults = 0
  \* a MapArray may keep more than one copy of a key
  /\ (kind /= "maparray" \/ ~ck) => e.live = (IF ck THEN Total(p.a, NSlots) ELSE 0) + (IF cv THEN Total(p.a, NSlots) ELSE 0)
Init == a = AllOff /\ kind = "map" /\ ck = FALSE /\ cv = FALSE /\ bk = [s \in Slots |-> 0] /\ i = 1
\* hdr: kind, key type, value type, mode
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ kind' = e.hdr[1] /\ ck' = (e.hdr[2] = "tracked") /\ cv' = (e.hdr[3] = "tracked") /\ bk' = [s \in Slots |-> 0]
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED <<kind, ck, cv, bk>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post(a, kind, e) IN
         /\ Observed(e, p)
         /\ a' = p.a /\ bk' = [s \in Slots |-> e.obs[s].bk] /\ UNCHANGED <<kind, ck, cv>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, kind, ck, cv, bk, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
