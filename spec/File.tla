--------------------------------- MODULE File ---------------------------------
(* Binary files: what a history of opening, reading, skipping, writing and closing leaves on the disk
   and gives to the program.  The buffer of a file is not part of its meaning: whatever its size,
   a file that is read is a sequence of bytes with a position in it.

   Places: 1 and 2 are files, 3 is in a directory that does not exist, 4 is a device on which
   nothing can be stored.  A file object f[s] is off, failed (it could not be opened), open, closed,
   or lost: open, but a read failed, after which its position is not specified.                *)
EXTENDS Integers, Sequences
Held == 16384
NoFile == [st |-> "off", mode |-> "r", p |-> 0, pos |-> 0, out |-> <<>>, told |-> FALSE]
\* a: [disk: what is in 1 and 2 (there, b), f: the objects]
Blank == [disk |-> <<[there |-> FALSE, b |-> <<>>], [there |-> FALSE, b |-> <<>>]>>, f |-> <<NoFile, NoFile>>]
Bytes(a, o) == a.disk[o.p].b
Writing(a, p) == \E s \in 1..Len(a.f) : a.f[s].st \in {"open", "lost"} /\ a.f[s].mode = "w" /\ a.f[s].p = p
InUse(a, p) == \E s \in 1..Len(a.f) : a.f[s].st \in {"open", "lost"} /\ a.f[s].p = p
Ready(o, m) == o.st \in {"open", "lost"} /\ o.mode = m
Opens(a, e) == IF e.mode = "w" THEN e.p # 3 ELSE e.p \in 1..2 /\ a.disk[e.p].there
\* what the calls may reply: [a, st, b] where st is "ok", "error" or "abort" and b the bytes read
R(a, st, b) == [a |-> a, st |-> st, b |-> b]
Posts(a, e) ==
  CASE e.op = "put"  -> {R([a EXCEPT !.disk[e.p] = [there |-> TRUE, b |-> e.b]], "ok", <<>>)}
    [] e.op = "gone" -> {R([a EXCEPT !.disk[e.p] = [there |-> FALSE, b |-> <<>>]], "ok", <<>>)}
    [] e.op = "look" -> {R(a, IF a.disk[e.p].there THEN "ok" ELSE "error", a.disk[e.p].b)}
    [] e.op = "open" ->
         IF ~Opens(a, e) THEN {R([a EXCEPT !.f[e.s] = [NoFile EXCEPT !.st = "failed"]], "error", <<>>)}
         ELSE LET d == [a EXCEPT !.f[e.s] = [NoFile EXCEPT !.st = "open", !.mode = e.mode, !.p = e.p]] IN
              {R(IF e.mode = "w" /\ e.p <= 2 THEN [d EXCEPT !.disk[e.p] = [there |-> TRUE, b |-> <<>>]] ELSE d, "ok", <<>>)}
    [] e.op = "read" ->
         LET o == a.f[e.s]  m == e.n * e.w IN
         IF ~Ready(o, "r") \/ e.n < 0 \/ e.w <= 0 THEN {R(a, "abort", <<>>)}
         ELSE IF o.st = "lost" THEN {R(a, "any", <<>>)}
         ELSE IF m = 0 THEN {R(a, "ok", <<>>)}
         ELSE IF o.pos + m <= Len(Bytes(a, o)) THEN {R([a EXCEPT !.f[e.s].pos = o.pos + m], "ok", SubSeq(Bytes(a, o), o.pos + 1, o.pos + m))}
         ELSE {R([a EXCEPT !.f[e.s].st = "lost"], "error", <<>>)}
    [] e.op = "skip" ->
         LET o == a.f[e.s] IN
         IF o.st \notin {"open", "lost"} THEN {R(a, "abort", <<>>)}
         ELSE IF o.st = "lost" THEN {R(a, "any", <<>>)}
         \* beyond the end: it may be told at once, or by the next read
         ELSE {R([a EXCEPT !.f[e.s].pos = o.pos + e.n], "ok", <<>>)} \cup
              (IF o.pos + e.n > Len(Bytes(a, o)) THEN {R([a EXCEPT !.f[e.s].st = "lost"], "error", <<>>)} ELSE {})
    [] e.op = "write" ->
         LET o == a.f[e.s]  d == [a EXCEPT !.f[e.s].out = o.out \o e.b] IN
         IF ~Ready(o, "w") \/ e.n < 0 THEN {R(a, "abort", <<>>)}
         \* a stream keeps a few pages at most: more than Held bytes that can not be stored are told at once
         ELSE (IF o.p = 4 /\ ~o.told /\ Len(d.f[e.s].out) > Held THEN {} ELSE {R(d, "ok", <<>>)})
              \cup (IF o.p = 4 /\ e.b # <<>> THEN {R([d EXCEPT !.f[e.s].told = TRUE], "error", <<>>)} ELSE {})
    [] e.op = "close" ->
         LET o == a.f[e.s]  d == [a EXCEPT !.f[e.s] = [NoFile EXCEPT !.st = "closed"]] IN
         IF o.st \notin {"open", "lost"} THEN {R(a, "abort", <<>>)}
         ELSE IF o.mode = "r" THEN {R(d, "ok", <<>>)}
         \* what could not be stored is told, by a write or here
         ELSE IF o.p = 4 THEN (IF o.out = <<>> \/ o.told THEN {R(d, "ok", <<>>)} ELSE {}) \cup (IF o.out # <<>> THEN {R(d, "error", <<>>)} ELSE {})
         ELSE {R([d EXCEPT !.disk[o.p].b = o.out], "ok", <<>>)}
    \* an object is only destroyed when it is not open any more
    [] e.op = "drop" -> IF a.f[e.s].st \in {"open", "lost"} THEN {R(a, "abort", <<>>)} ELSE {R([a EXCEPT !.f[e.s] = NoFile], "ok", <<>>)}
Open(a) == {s \in 1..Len(a.f) : a.f[s].st \in {"open", "lost"}}
=============================================================================
