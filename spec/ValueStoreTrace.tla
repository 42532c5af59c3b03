--------------------------- MODULE ValueStoreTrace ---------------------------
EXTENDS ValueStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES v,       \* what each slot shows
          memo,    \* what making and mutating gave so far: they depend on what an object shows, on nothing else
          full,    \* whether the type leaves an empty object behind a move
          i
Init == v = [s \in Slots |-> Off] /\ memo = << >> /\ full = TRUE /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> v' = [s \in Slots |-> Off] /\ memo' = << >> /\ full' = (e.hdr[3] = "empty")
    [] e.op = "END" -> e.faults = 0 /\ e.live = 0 /\ e.blocks = 0 /\ UNCHANGED <<v, memo, full>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER ->
         LET key == IF e.op = "make" THEN <<"make", e.c>> ELSE IF e.op = "mut" THEN <<v[e.s], e.c>> ELSE << >>
             zero == <<"make", 0>>
             left == IF full /\ zero \in DOMAIN memo THEN memo[zero] ELSE Moved
             p == Post(v, e, e.obs[e.s], left) IN
         /\ Enabled(v, e)
         /\ e.st = "ok" /\ e.sane
         /\ e.faults = 0
         /\ e.obs = p
         /\ (key \in DOMAIN memo => memo[key] = e.obs[e.s])
         /\ v' = p
         /\ memo' = IF key = << >> THEN memo ELSE [k \in DOMAIN memo \cup {key} |-> IF k = key THEN e.obs[e.s] ELSE memo[k]]
         /\ UNCHANGED full
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<v, memo, full, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
