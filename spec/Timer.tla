--------------------------------- MODULE Timer ---------------------------------
(* Timers over a clock, sleeping, benchmarks, and durations as text.  All times in nanoseconds.
   a = [clk, tm]: the clock, and two timers [on, acc, t0].                                      *)
EXTENDS Integers, Sequences
Slots == {1, 2}
Off == [on |-> FALSE, acc |-> 0, t0 |-> 0]
Blank == [clk |-> 0, tm |-> [s \in Slots |-> Off]]
R(a, st, got) == [a |-> a, st |-> st, got |-> got]
Same(a) == R(a, "ok", 0)
Set(a, s, t) == R([a EXCEPT !.tm[s] = t], "ok", 0)
At(a, clk) == R([a EXCEPT !.clk = clk], "ok", 0)
Post(a, e) ==
  CASE e.op = "adv"   -> At(a, a.clk + e.d)
    [] e.op = "start" -> IF a.tm[e.s].on THEN R(a, "abort", 0) ELSE Set(a, e.s, [a.tm[e.s] EXCEPT !.on = TRUE, !.t0 = a.clk])
    [] e.op = "stop"  -> IF ~a.tm[e.s].on THEN R(a, "abort", 0) ELSE Set(a, e.s, [on |-> FALSE, acc |-> a.tm[e.s].acc + (a.clk - a.tm[e.s].t0), t0 |-> 0])
    [] e.op = "reset" -> Set(a, e.s, Off)
    [] e.op = "new"   -> Set(a, e.s, Off)
    [] e.op = "copy"  -> Set(a, 3 - e.s, a.tm[e.s])
    [] e.op = "time"  -> R(a, "ok", a.tm[e.s].acc)
    \* until d nanoseconds after it was started
    [] e.op = "until" -> IF ~a.tm[e.s].on THEN R(a, "abort", 0) ELSE At(a, IF a.tm[e.s].t0 + e.d > a.clk THEN a.tm[e.s].t0 + e.d ELSE a.clk)
    [] e.op = "sleep" -> At(a, a.clk + e.d)

\* --- benchmarks: runs is the sequence of runs of the program, n iterations that took t nanoseconds
Bench(e) ==
  LET k == Len(e.runs) IN
  /\ k \in 1..21 /\ e.runs[1].n = 1
  /\ \A i \in 1..k : LET r == e.runs[i] IN
       \* as long as a run is too short, more iterations, though not too many
       /\ i < k => /\ 2 * r.t <= e.goal
                   /\ e.runs[i + 1].n \in r.n..(10 * r.n)
                   /\ r.t > 0 => e.runs[i + 1].n <= (e.goal * r.n) \div r.t
       /\ (i = k /\ k < 21) => 2 * (r.t + r.n + 1) > e.goal
Last(e) == e.runs[Len(e.runs)]
Min(x, y) == IF x < y THEN x ELSE y
\* p picoseconds an iteration, for n iterations that took t nanoseconds
Mean(p, t, n, room) == (p * n) - (1000 * t) \in (-n)..((1001 * room) + 1)
Right(e) ==
  \* the time of one iteration is the mean over the last run; it is counted in picoseconds, and one
  \* nanosecond more or less is not an error
  LET r == Last(e) IN Mean(e.ps, r.t, r.n, r.n)
\* known finding: divided by the number of iterations of a run that would have been next
ByNext(e) ==
  LET r == Last(e)
      lo == Min((e.goal * r.n) \div (r.t + r.n + 1), 10 * r.n)
      hi == IF r.t = 0 THEN 10 * r.n ELSE Min((e.goal * r.n) \div r.t, 10 * r.n)
  IN \E m \in lo..hi : IF m = 0 THEN e.ps = -1 ELSE Mean(e.ps, r.t, m, r.n)

\* --- durations as text: m millionths of a unit, at least one unit and less than the next larger unit
Units == <<"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours", "days", "years">>
Ratio == <<1000, 1000, 1000, 60, 60, 24, 365, 1000>>
Number(m) == LET p(x) == IF x < 10 THEN "00000" ELSE IF x < 100 THEN "0000" ELSE IF x < 1000 THEN "000" ELSE IF x < 10000 THEN "00" ELSE IF x < 100000 THEN "0" ELSE "" IN
             <<m \div 1000000, p(m % 1000000), m % 1000000>>
=============================================================================
