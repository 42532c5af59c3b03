----------------------------- MODULE FormatsTrace -----------------------------
EXTENDS Formats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, d
Act(e) == LET r == Post(d, e) IN
          /\ e.st = r.st /\ (e.op = "load" => e.got = r.v)
          /\ {e.files[k] : k \in 1..Len(e.files)} = Names(r.d)
          /\ e.op \in {"load"} \/ r.st = "error" => e.same        \* no file has changed
          /\ e.fds = 0
          /\ d' = r.d
Step(e) ==
  CASE e.op = "RESET" -> d' = {}
    [] e.op = "END"   -> e.fds = 0 /\ UNCHANGED d
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Act(e)
Init == i = 1 /\ d = {}
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, d>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
