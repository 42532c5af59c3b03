------------------------------ MODULE TomlTrace ------------------------------
EXTENDS Toml, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i = 1
Step(e) ==
  CASE e.op = "RESET" -> TRUE
    [] e.op = "END"   -> e.fds = 0
    [] e.op = "CRASH" -> FALSE
    [] e.op = "doc"   -> Loaded(e.b, e.st, e.o) = TRUE /\ e.fds = 0
    [] e.op = "missing" -> e.st = "error" /\ e.fds = 0
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
