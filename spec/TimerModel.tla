------------------------------- MODULE TimerModel -------------------------------
(* A timer tells the time it was running, from the last reset to the last stop: on[s] counts the
   nanoseconds that went by while it was on, one at a time.                                     *)
EXTENDS Timer, TLC, Json, FiniteSets
VARIABLES a, ran, last
Ops == [op : {"adv"}, d : {1}] \cup [op : {"start", "stop", "reset", "new", "copy", "time"}, s : Slots] \cup [op : {"until"}, s : Slots, d : {0, 1, 3}] \cup [op : {"sleep"}, d : {0, 2}]
Init == a = Blank /\ ran = [s \in Slots |-> [now |-> 0, all |-> 0]] /\ last = [op |-> "init"]
Next == \E e \in Ops : LET r == Post(a, e)  ok == r.st = "ok" IN
  /\ a' = r.a /\ last' = e
  /\ ran' = [s \in Slots |->
       LET x == ran[s]  went == r.a.clk - a.clk  y == [x EXCEPT !.now = IF a.tm[s].on THEN x.now + went ELSE x.now] IN
       IF ~ok THEN x
       ELSE IF e.op = "copy" /\ s # e.s THEN ran[e.s]
       ELSE IF e.op \in {"reset", "new"} /\ e.s = s THEN [now |-> 0, all |-> 0]
       ELSE IF e.op = "stop" /\ e.s = s THEN [now |-> 0, all |-> y.all + y.now]
       ELSE y]
Spec == Init /\ [][Next]_<<a, ran, last>>
View == <<a, ran>>
Told == \A s \in Slots : a.tm[s].acc = ran[s].all /\ (a.tm[s].on => a.clk - a.tm[s].t0 = ran[s].now)
\* time does not go back, and what is running is not touched by others
Forward == [][a'.clk >= a.clk /\ \A s \in Slots : (last'.op \in {"adv", "time", "until", "sleep"}) => a'.tm[s] = a.tm[s]]_<<a, ran, last>>
Small == a.clk <= 5
Emit == (a.clk <= 3 /\ a'.clk <= 5) => PrintT("@@" \o ToJson([f |-> a, o |-> last', t |-> a']))
=============================================================================
