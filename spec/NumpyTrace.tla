------------------------------ MODULE NumpyTrace ------------------------------
EXTENDS Numpy, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i
Slots == 1..5
Place(k, b) == [k |-> k, b |-> b]
Fresh == [s \in Slots |-> Place(CASE s = 3 -> "ext" [] s = 4 -> "away" [] s = 5 -> "full" [] OTHER -> "none", <<>>)]
Value(e) == [kind |-> e.kind, type |-> e.type, dims |-> e.dims, data |-> e.data]
\* what the place looks like from outside
Seen(f, e) == IF f.k \in {"none", "dir", "file"} THEN e.fk = f.k /\ e.fb = f.b ELSE e.fk = "none"
Change(f, e) ==
  CASE e.op = "raw"   -> Place("file", e.b)
    [] e.op = "poke"  -> Place("file", [f.b EXCEPT ![e.p] = e.v])
    [] e.op = "cut"   -> Place("file", SubSeq(f.b, 1, e.n))
    [] e.op = "app"   -> Place("file", f.b \o e.b)
    [] e.op = "rm"    -> Place("none", <<>>)
    [] e.op = "mkdir" -> Place("dir", <<>>)
Init == w = Fresh /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> w' = Fresh
    [] e.op = "END"   -> e.fds = 0 /\ w' = Fresh
    [] e.op = "CRASH" -> FALSE
    [] e.op = "load"  -> /\ Loaded(w[e.s], e.kind, e.type, [st |-> e.st, dims |-> e.rdims, data |-> e.rdata])
                         /\ Seen(w[e.s], e) /\ e.fds = 0 /\ w' = w
    [] e.op = "save"  -> LET f == w[e.s]  g == IF f.k \in {"none", "dir", "file"} THEN Place(e.fk, e.fb) ELSE f IN
                         /\ Saved(f, Value(e), e.st, g) /\ Seen(g, e) /\ e.fds = 0
                         /\ w' = [w EXCEPT ![e.s] = g]
    [] OTHER -> LET g == Change(w[e.s], e) IN Seen(g, e) /\ w' = [w EXCEPT ![e.s] = g]
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<w, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
