---------------------------- MODULE FilepackTrace ----------------------------
EXTENDS Filepack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i = 1
Step(e) ==
  CASE e.op = "RESET" -> TRUE
    [] e.op = "END"   -> e.fds = 0
    [] e.op = "CRASH" -> FALSE
    [] e.op = "trip"  -> Trip(e.where, e.opt, e.v, e) = TRUE /\ e.fds = 0
    [] e.op = "missing" -> e.st = "error" /\ e.fds = 0
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
