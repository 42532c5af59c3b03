------------------------------- MODULE Unicode -------------------------------
(* Encoding forms of Unicode: UTF-8 and UTF-16 as functions from scalar values to code
   units, with their inverses and the set of well-formed sequences. *)
EXTENDS Integers, Sequences
Scalar(u) == (u \in 0..1114111) /\ ~(u \in 55296..57343)
Enc8(u) ==
  IF u < 128 THEN <<u>>
  ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
  ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
  ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Enc16(u) == IF u < 65536 THEN <<u>> ELSE LET w == u - 65536 IN <<55296 + (w \div 1024), 56320 + (w % 1024)>>
Cont(b) == b \in 128..191
\* scalar value at position i of b, with its length: an ill-formed sequence has length 0
Dec8(b, i) ==
  LET n == Len(b) - i + 1   \* bytes available
      c == b[i]
      len == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
      bad == [u |-> 0, n |-> 0]
  IN IF len = 0 \/ len > n THEN bad
     ELSE IF \E k \in 1..(len - 1) : ~Cont(b[i + k]) THEN bad
     ELSE LET u == IF len = 1 THEN c
                   ELSE IF len = 2 THEN (c - 192) * 64 + (b[i + 1] - 128)
                   ELSE IF len = 3 THEN (c - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                   ELSE (c - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
          \* shortest form of a scalar value
          IN IF Scalar(u) /\ Len(Enc8(u)) = len THEN [u |-> u, n |-> len] ELSE bad
RECURSIVE Runes8(_, _)
\* <<ok, scalar values>> of b from position i
Runes8(b, i) == IF i > Len(b) THEN [ok |-> TRUE, u |-> <<>>]
                ELSE LET d == Dec8(b, i) IN
                     IF d.n = 0 THEN [ok |-> FALSE, u |-> <<>>]
                     ELSE LET r == Runes8(b, i + d.n) IN [ok |-> r.ok, u |-> <<d.u>> \o r.u]
Valid8(b) == Runes8(b, 1).ok
RECURSIVE Runes16(_, _)
Runes16(w, i) ==
  IF i > Len(w) THEN [ok |-> TRUE, u |-> <<>>]
  ELSE LET c == w[i] IN
       IF c \in 56320..57343 THEN [ok |-> FALSE, u |-> <<>>]
       ELSE IF c \in 55296..56319
            THEN IF i = Len(w) \/ ~(w[i + 1] \in 56320..57343) THEN [ok |-> FALSE, u |-> <<>>]
                 ELSE LET r == Runes16(w, i + 2) IN [ok |-> r.ok, u |-> <<65536 + (c - 55296) * 1024 + (w[i + 1] - 56320)>> \o r.u]
            ELSE LET r == Runes16(w, i + 1) IN [ok |-> r.ok, u |-> <<c>> \o r.u]
Valid16(w) == Runes16(w, 1).ok
RECURSIVE Cat8(_, _)
Cat8(us, i) == IF i > Len(us) THEN <<>> ELSE Enc8(us[i]) \o Cat8(us, i + 1)
RECURSIVE Cat16(_, _)
Cat16(us, i) == IF i > Len(us) THEN <<>> ELSE Enc16(us[i]) \o Cat16(us, i + 1)
\* the prefix of b before its first 0
RECURSIVE CStr(_, _)
CStr(b, i) == IF i > Len(b) \/ b[i] = 0 THEN SubSeq(b, 1, i - 1) ELSE CStr(b, i + 1)
=============================================================================
