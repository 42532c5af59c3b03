------------------------------ MODULE AlgoTrace ------------------------------
(* Traces of independent calls: every event is judged on its own by Right. *)
EXTENDS Algo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Step(e) ==
  CASE e.op = "RESET" -> TRUE
    [] e.op = "END"   -> e.blocks = 0
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Right(e)
Init == i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
