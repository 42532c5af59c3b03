---------------------------- MODULE BoundsTrace ----------------------------
EXTENDS Bounds, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES o, kind, i
Step(e) ==
  CASE e.op = "RESET" -> o' = None /\ kind' = e.hdr[1]
    [] e.op = "END"   -> e.blocks = 0 /\ o' = None /\ UNCHANGED kind
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> LET p == Post1(o, kind, e) IN
         /\ e.st = "ok" \/ e.st = "abort"
         /\ (e.st = "ok") => p.ok
         /\ (e.st = "abort") => (p.may \/ ~p.ok)
         /\ e.st = "ok" => e.got = p.r
         /\ o' = IF e.st = "ok" THEN p.o ELSE IF e.op = "make" THEN None ELSE o
         /\ e.on = o'.on /\ e.size = o'.n /\ e.cells = o'.v
         /\ UNCHANGED kind
Init == o = None /\ kind = "box" /\ i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<o, kind, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
