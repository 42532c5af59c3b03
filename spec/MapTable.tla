------------------------------ MODULE MapTable ------------------------------
(* The hash table behind il::Map: open addressing with triangular probing in 2^p
   buckets, tombstones, growth when 4 (elements + 1) > 3 buckets, rehash when
   8 (tombstones + 1) > buckets.  Checked here: a search ends and finds exactly the keys
   inserted and not erased, whatever the collisions.  Its behaviours are replayed on
   il::Map and il::Set with the same hash codes.  tbl[i]: 0 empty, -1 tombstone, or a key. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Code,      \* Code[k]: hash code of key k; its home bucket is Code[k] mod 2^p
          PMax, Reserves, Erase
VARIABLES p, tbl, set, last
CodesA == <<3, 3, 11, 19, 2, 0, 15>>
CodesB == <<0, 0, 0, 0, 0>>
CodesC == <<7, 15, 14, 7, 31, 12>>
RECURSIVE Pow2(_)
Pow2(q) == IF q = 0 THEN 1 ELSE 2 * Pow2(q - 1)
M(q) == IF q < 0 THEN 0 ELSE Pow2(q)
KeyIds == 1..Len(Code)
Tri(d) == (d * (d + 1)) \div 2
Probe(t, q, k, d) == (Code[k] + Tri(d)) % M(q)          \* d-th bucket visited
\* number of steps of the search of k: until an empty bucket or the key
StopAt(t, q, k) == {d \in 0..(M(q) - 1) : t[Probe(t, q, k, d)] \in {0, k}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Steps(t, q, k) == Min(StopAt(t, q, k))
Found(t, q, k) == q >= 0 /\ t[Probe(t, q, k, Steps(t, q, k))] = k
Tombs(t, q, k) == {d \in 0..Steps(t, q, k) : t[Probe(t, q, k, d)] = -1}
Spot(t, q, k) == IF Tombs(t, q, k) /= {} THEN Probe(t, q, k, Max(Tombs(t, q, k))) ELSE Probe(t, q, k, Steps(t, q, k))
Count(t, q, what) == Cardinality({x \in 0..(M(q) - 1) : t[x] = what})
NEl(t, q) == Cardinality({x \in 0..(M(q) - 1) : t[x] > 0})
Blank(q) == [x \in 0..(M(q) - 1) |-> 0]
RECURSIVE Refill(_, _, _, _, _)
Refill(t, q, old, n, m) ==   \* insert old[n..m-1] in t
  IF n = m THEN t
  ELSE IF old[n] > 0 THEN Refill([t EXCEPT ![Spot(t, q, old[n])] = old[n]], q, old, n + 1, m)
  ELSE Refill(t, q, old, n + 1, m)
Grow(t, q, q2) == Refill(Blank(q2), q2, t, 0, M(q))
PFor(n) == CASE n = 0 -> -1 [] n = 1 -> 1 [] n \in 2..3 -> 2 [] n \in 4..6 -> 3 [] n \in 7..12 -> 4 [] OTHER -> 5
Init == p = -1 /\ tbl = <<>> /\ set = {} /\ last = [op |-> "init"]
Insert(k) ==
  /\ last' = [op |-> "set", k |-> k]
  /\ set' = set \cup {k}
  /\ IF Found(tbl, p, k) THEN UNCHANGED <<p, tbl>>
     ELSE IF 4 * (NEl(tbl, p) + 1) > 3 * M(p)
          THEN LET q == IF p = -1 THEN 1 ELSE p + 1  t == Grow(tbl, p, q) IN
               q <= PMax /\ p' = q /\ tbl' = [t EXCEPT ![Spot(t, q, k)] = k]
          ELSE p' = p /\ tbl' = [tbl EXCEPT ![Spot(tbl, p, k)] = k]
Remove(k) ==
  /\ Erase /\ Found(tbl, p, k)
  /\ last' = [op |-> "erase", k |-> k]
  /\ set' = set \ {k} /\ p' = p
  /\ LET t == [tbl EXCEPT ![Probe(tbl, p, k, Steps(tbl, p, k))] = -1] IN
     tbl' = IF 8 * (Count(t, p, -1) + 1) > M(p) THEN Grow(t, p, p) ELSE t
Reserve(n) ==
  /\ PFor(n) > p /\ p' = PFor(n) /\ p' <= PMax /\ tbl' = Grow(tbl, p, PFor(n))
  /\ last' = [op |-> "reserve", n |-> n] /\ UNCHANGED set
Rehash == /\ Erase /\ Count(tbl, p, -1) > 0 /\ p' = p /\ tbl' = Grow(tbl, p, p) /\ last' = [op |-> "rehash"] /\ UNCHANGED set
Next == (\E k \in KeyIds : Insert(k) \/ Remove(k)) \/ (\E n \in Reserves : Reserve(n)) \/ Rehash
Spec == Init /\ [][Next]_<<p, tbl, set, last>>
View == <<p, tbl>>
Inv == /\ p >= 0 => \A k \in KeyIds : StopAt(tbl, p, k) /= {}           \* every search ends
       /\ \A k \in KeyIds : Found(tbl, p, k) <=> k \in set              \* and is right
       /\ NEl(tbl, p) = Cardinality(set) /\ 4 * NEl(tbl, p) <= 3 * M(p) /\ (8 * Count(tbl, p, -1)) <= M(p)
\* triangular probing visits every bucket
ASSUME \A q \in 0..6 : {Tri(d) % M(q) : d \in 0..(M(q) - 1)} = 0..(M(q) - 1)
Emit == PrintT("@@" \o ToJson([f |-> <<p, tbl>>, o |-> last', t |-> <<p', tbl'>>]))
=============================================================================
