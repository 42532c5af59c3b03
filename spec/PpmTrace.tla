------------------------------- MODULE PpmTrace -------------------------------
EXTENDS Ppm, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Step(e) ==
  CASE e.op = "RESET"   -> TRUE
    [] e.op = "END"     -> e.fds = 0
    [] e.op = "CRASH"   -> FALSE
    [] e.op = "load"    -> Loaded(e.doc, e) /\ e.fds = 0 /\ e.same
    [] e.op = "missing" -> e.st = "error" /\ e.fds = 0
Init == i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
