------------------------------- MODULE FileModel -------------------------------
(* A buffered reader: the position of the system in the file, and a buffer holding the end of what
   has been fetched.  It gives what File.tla says, for every size of the buffer.               *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxBuf, MaxAsk
VARIABLES len, cap, fpos, next, end, buf, pos, good
Min(x, y) == IF x < y THEN x ELSE y
File(x, n) == [k \in 1..n |-> x + k]        \* the bytes of the file after x are x+1, x+2, ...
Init == /\ len \in 0..MaxLen /\ cap \in 0..MaxBuf
        /\ fpos = 0 /\ next = 0 /\ end = 0 /\ buf = <<>> /\ pos = 0 /\ good = TRUE
Read(m) ==
  LET have == Min(end - next, m)
      first == SubSeq(buf, next + 1, next + have)
      need == m - have
      there == fpos + need <= len
      ok(g) == good' = (g = File(pos, m) /\ pos + m <= len)      \* what is given is what was asked for
      fail == good' = (pos + m > len) IN
  /\ pos' = pos + m
  /\ IF need = 0 THEN next' = next + have /\ good' = (first = File(pos, m)) /\ UNCHANGED <<fpos, end, buf>>
     ELSE IF need > cap THEN
       /\ next' = next + have /\ fpos' = fpos + need /\ UNCHANGED <<end, buf>>
       /\ IF there THEN ok(first \o File(fpos, need)) ELSE fail
     ELSE IF fpos + cap <= len THEN
       /\ buf' = File(fpos, cap) /\ end' = cap /\ next' = need /\ fpos' = fpos + cap
       /\ ok(first \o SubSeq(buf', 1, need))
     ELSE
       /\ next' = 0 /\ end' = 0 /\ fpos' = fpos + need /\ UNCHANGED buf
       /\ IF there THEN ok(first \o File(fpos, need)) ELSE fail
Skip(m) ==
  LET have == Min(end - next, m)  need == m - have IN
  /\ pos' = pos + m /\ good' = TRUE
  /\ IF need = 0 THEN next' = next + have /\ UNCHANGED <<fpos, end, buf>>
     ELSE next' = 0 /\ end' = 0 /\ fpos' = fpos + need /\ UNCHANGED buf
Next == pos <= len /\ \E m \in 0..MaxAsk : (Read(m) \/ Skip(m)) /\ UNCHANGED <<len, cap>>
Spec == Init /\ [][Next]_<<len, cap, fpos, next, end, buf, pos, good>>
Given == good
Shape == /\ 0 <= next /\ next <= end /\ end <= cap
         /\ pos <= len => /\ pos = fpos - (end - next) /\ fpos <= len
                          /\ \A k \in 1..(end - next) : buf[next + k] = pos + k
=============================================================================
