----------------------------- MODULE StringTrace -----------------------------
EXTENDS String, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES a, k, i
\* every unit, the terminator, the kind, and the capacity: never less than the size nor than what was
\* reserved; `still` says that the characters did not move if there was enough capacity for the result
Observed(e, p) ==
  /\ e.st = (IF p.ok THEN "ok" ELSE "abort") /\ e.r = p.r
  /\ \A s \in Slots :
       LET o == e.obs[s]  w == p.a[s] IN
       /\ o.on = w.on
       /\ w.on => /\ o.n = Len(w.v) /\ o.v = w.v /\ o.ty = w.ty /\ o.nul
                  /\ o.cap >= o.n /\ o.cap >= w.min /\ o.small = (o.cap <= Small(k)) /\ (k = 8 => o.still)
                  /\ o.empty = (Len(w.v) = 0)
(* Characters encoded and decoded on their own *)
Codec(e) ==
  CASE e.op = "enc" -> LET us == [j \in 1..e.n |-> e.lo + j - 1] IN
                       /\ e.st = "ok" /\ e.e8 = Cat8(us, 1) /\ e.e16 = Cat16(us, 1)
                       /\ e.d8 = us /\ e.d16 = us
    [] e.op = "isrune" -> e.st = "ok" /\ e.r = [j \in 1..Len(e.x) |-> IF Scalar(e.x[j]) THEN 1 ELSE 0]
    [] e.op = "valid" -> \* isUtf8(s, n), isUtf8(C string), isAscii(s, n), isAscii(C string)
         LET A(b) == \A j \in 1..Len(b) : b[j] < 128
             c == CStr(e.x, 1)
             t(b) == IF b THEN 1 ELSE 0 IN
         e.st = "ok" /\ e.r = <<t(Valid8(e.x)), t(Valid8(c)), t(A(e.x)), t(A(c))>>
    [] e.op = "valids" -> \* every sequence pre \o <<b>>, b = 0..255
         e.st = "ok" /\ e.r = [b \in 1..256 |-> IF Valid8(e.x \o <<b - 1>>) THEN 1 ELSE 0]
    [] e.op = "to16" -> e.st = "ok" /\ e.r = Cat16(Runes8(e.x, 1).u, 1) /\ e.back = e.x
    [] e.op = "to8" -> e.st = "ok" /\ e.r = Cat8(Runes16(e.x, 1).u, 1) /\ e.back = e.x
CodecOps == {"enc", "isrune", "valid", "valids", "to16", "to8"}
Init == a = AllOff /\ k = 8 /\ i = 1
Step(e) ==
  CASE e.op = "RESET" -> a' = AllOff /\ k' = (IF e.hdr[1] = "utf16" THEN 16 ELSE 8)
    [] e.op = "END"   -> e.faults = 0 /\ e.blocks = 0 /\ a' = AllOff /\ UNCHANGED k
    [] e.op = "CRASH" -> FALSE
    [] e.op \in CodecOps -> Codec(e) /\ UNCHANGED <<a, k>>
    [] OTHER -> LET p == Post(k, a, e) IN Observed(e, p) /\ a' = p.a /\ UNCHANGED k
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<a, k, i>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
