----------------------------- MODULE ArrayTrace -----------------------------
(* Decides recorded traces: every event must be a transition of Array.Post    *)
(* with the observed reply and the observed state of every slot.              *)
EXTENDS Array, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, cls, i
Observed(e, p, old) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s]  u == old[s] IN
       /\ o.on = w.on
       /\ w.on =>
          /\ o.v = w.v
          /\ o.cap >= Max(K, Len(w.v))
          /\ o.al = w.al
          /\ (K > 0 => (o.inl <=> o.cap = K))        \* inline storage until more than K elements are needed
          /\ w.am > 0 /\ Len(w.v) > 0 => o.adr % w.am = w.ar
          /\ o.same                             \* all accessors agree
          /\ IF s = e.s THEN (IF p.inplace /\ p.ok THEN o.cap = u.cap /\ ~o.pch ELSE o.cap >= p.least)
             ELSE IF "t" \in DOMAIN e /\ s = e.t /\ e.op \in {"new_move", "move_assign"} THEN TRUE
             ELSE o.cap = u.cap /\ ~o.pch      \* slots the call does not name are untouched
  /\ e.faults = 0
  /\ (cls => e.live = LET S[k \in 0..NSlots] == IF k = 0 THEN 0 ELSE S[k-1] + Len(p.a[k].v) IN S[NSlots])
Init == a = AllOff /\ cls = FALSE /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ cls' = (e.hdr[1] = "tracked")
    [] e.op = "END"   -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED cls
    [] e.op = "CRASH" -> FALSE
    [] OTHER ->
         LET p == Post(a, e) IN
         /\ Observed(e, p, a)
         /\ (cls => \A k \in 1..Len(e.pre) : e.pre[k] = 0)
         /\ (cls => Len(e.pre) = FreshOf(a, e))
         /\ a' = [s \in Slots |-> [p.a[s] EXCEPT !.cap = IF p.a[s].on THEN e.obs[s].cap ELSE 0]]
         /\ UNCHANGED cls
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, cls, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
