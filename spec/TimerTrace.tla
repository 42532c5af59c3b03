------------------------------ MODULE TimerTrace ------------------------------
EXTENDS Timer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT AllowByNext
VARIABLES i, a
Near(x, y) == x - y \in -2..2
Act(e) == LET r == Post(a, e) IN
  /\ e.st = r.st
  /\ e.op = "time" => Near(e.got, r.got)
  \* sleeping may be rounded; it never ends the clock of others
  /\ IF e.op \in {"sleep", "until"} /\ r.a.clk # a.clk THEN Near(e.clk, r.a.clk) ELSE e.clk = r.a.clk
  /\ a' = [r.a EXCEPT !.clk = e.clk]
Step(e) ==
  CASE e.op = "RESET" -> a' = Blank
    [] e.op = "END"   -> UNCHANGED a
    [] e.op = "CRASH" -> FALSE
    [] e.op = "bench" -> e.st = "ok" /\ Bench(e) /\ (Right(e) \/ (AllowByNext /\ ByNext(e))) /\ a' = [a EXCEPT !.clk = e.clk]
    [] e.op = "show"  -> e.st = "ok" /\ e.unit = Units[e.u] /\ <<e.whole, e.pad, e.frac>> = Number(e.m) /\ e.clk = a.clk /\ UNCHANGED a
    [] e.op = "zero"  -> e.st = "ok" /\ e.text = "0 second" /\ e.clk = a.clk /\ UNCHANGED a
    [] e.op = "neg"   -> e.st = "abort" /\ e.clk = a.clk /\ UNCHANGED a
    [] OTHER -> Act(e)
Init == i = 1 /\ a = Blank
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, a>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
