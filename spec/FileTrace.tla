------------------------------- MODULE FileTrace -------------------------------
EXTENDS File, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, a
Act(e) == \E r \in Posts(a, e) : /\ e.st \in (IF r.st = "any" THEN {"ok", "error"} ELSE {r.st})
                                 /\ (r.st = "ok" /\ e.op \in {"read", "look"}) => e.got = r.b
                                 /\ e.fds = Cardinality(Open(r.a))
                                 /\ a' = r.a
Step(e) ==
  CASE e.op = "RESET" -> a' = Blank
    [] e.op = "END"   -> e.fds = 0 /\ UNCHANGED a
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Act(e)
Init == i = 1 /\ a = Blank
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, a>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
