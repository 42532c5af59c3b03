------------------------------ MODULE FactorTrace ------------------------------
EXTENDS Factor, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Step(e) ==
  CASE e.op = "RESET" -> TRUE
    [] e.op = "END"   -> TRUE
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Judged(e) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
