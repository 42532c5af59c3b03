---------------------------- MODULE LifetimeTrace ----------------------------
(* Decides recorded life events: whatever the call, each event it causes must be *)
(* allowed, and when all containers are gone nothing is left.                    *)
EXTENDS Lifetime, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i
Init == s = Empty /\ i = 1
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     CASE e.op = "RESET" -> s' = Empty
       [] e.op = "CRASH" -> FALSE
       [] OTHER -> LET r == Run(s, e.life, 1) IN
                   /\ r.n = Len(e.life)
                   /\ (e.op = "END" => Clean(r.s))
                   /\ s' = r.s
  /\ i' = i + 1
Spec == Init /\ [][Next]_<<s, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
