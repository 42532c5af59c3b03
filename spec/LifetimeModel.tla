---------------------------- MODULE LifetimeModel ----------------------------
(* How a growable container obeys Lifetime, one event at a time: two containers
   with storage in heap blocks, every operation unfolded into the allocations,
   constructions, reads, destructions and releases it performs.  `s` is what has
   really happened; the invariants say that every pending event is allowed when
   its turn comes and that the containers' elements are exactly the live objects. *)
EXTENDS Lifetime, TLC
CONSTANTS Cons, MaxLen, NBlocks, ES      \* ES: size of an element

VARIABLES c,      \* container -> [blk, cap, len]   (blk 0: no storage)
          todo,   \* pending events of the operation in progress
          next,   \* the containers once it is complete
          s
vars == <<c, todo, next, s>>
None == [blk |-> 0, cap |-> 0, len |-> 0]
Free == 1..NBlocks \ DOMAIN s.live
Fresh == CHOOSE b \in Free : \A d \in Free : b <= d

RECURSIVE Seq0(_, _, _)      \* concatenation of F(lo) .. F(hi)
Seq0(F(_), lo, hi) == IF lo > hi THEN << >> ELSE F(lo) \o Seq0(F, lo + 1, hi)
Born(b, k) == <<"b", b, k * ES, ES>>
Die(b, k) == <<"d", b, k * ES, 0>>
Use(b, k) == <<"r", b, k * ES, 0>>
Alloc(b, n) == IF n = 0 THEN << >> ELSE << <<"a", b, 0, n * ES>> >>
Release(b) == IF b = 0 THEN << >> ELSE << <<"f", b, 0, 0>> >>

Clear(v) == Seq0(LAMBDA k : <<Die(v.blk, v.len - 1 - k)>>, 0, v.len - 1) \o Release(v.blk)
\* move n elements from v to block b, and give up the old block
Relocate(v, b, cap, n) == Alloc(b, cap)
    \o Seq0(LAMBDA k : <<Use(v.blk, k), Born(b, k), Die(v.blk, k)>>, 0, n - 1)
    \o Seq0(LAMBDA k : <<Die(v.blk, k)>>, n, v.len - 1) \o Release(v.blk)
Copy(v, b) == Alloc(b, v.len) \o Seq0(LAMBDA k : <<Use(v.blk, k), Born(b, k)>>, 0, v.len - 1)

Begin(n, es) == todo' = es /\ next' = n /\ UNCHANGED <<c, s>>
Resize(x, n) ==
  LET v == c[x]  b == Fresh  k0 == IF v.len < n THEN v.len ELSE n IN
  IF n <= v.cap
  THEN Begin([c EXCEPT ![x].len = n],
             Seq0(LAMBDA k : <<Die(v.blk, k)>>, n, v.len - 1) \o Seq0(LAMBDA k : <<Born(v.blk, k)>>, v.len, n - 1))
  ELSE Begin([c EXCEPT ![x] = [blk |-> b, cap |-> n, len |-> n]],
             Relocate(v, b, n, k0) \o Seq0(LAMBDA k : <<Born(b, k)>>, k0, n - 1))
Reserve(x, n) ==
  LET v == c[x]  b == Fresh IN
  n > v.cap /\ Begin([c EXCEPT ![x] = [blk |-> b, cap |-> n, len |-> v.len]], Relocate(v, b, n, v.len))
Assign(x, y) ==        \* copy assignment, the storage of x is kept when it is large enough
  LET v == c[x]  w == c[y]  b == Fresh IN
  /\ x # y
  /\ IF w.len <= v.cap
     THEN Begin([c EXCEPT ![x].len = w.len],
                Seq0(LAMBDA k : <<Use(w.blk, k)>> \o <<IF k < v.len THEN Use(v.blk, k) ELSE Born(v.blk, k)>>, 0, w.len - 1)
                \o Seq0(LAMBDA k : <<Die(v.blk, k)>>, w.len, v.len - 1))
     ELSE Begin([c EXCEPT ![x] = [blk |-> b, cap |-> w.len, len |-> w.len]], Clear(v) \o Copy(w, b))
Move(x, y) == x # y /\ Begin([c EXCEPT ![x] = c[y], ![y] = None], Clear(c[x]))
Drop(x) == Begin([c EXCEPT ![x] = None], Clear(c[x]))

Init == c = [x \in Cons |-> None] /\ todo = << >> /\ next = c /\ s = Empty
Next == \/ /\ todo # << >>
           /\ s' = Step(s, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED next
           /\ c' = IF Len(todo) = 1 THEN next ELSE c
        \/ /\ todo = << >> /\ c = next /\ Free # {}
           /\ \E x \in Cons : \/ \E n \in 0..MaxLen : Resize(x, n) \/ Reserve(x, n)
                              \/ \E y \in Cons : Assign(x, y) \/ Move(x, y)
                              \/ Drop(x)
        \/ todo = << >> /\ c # next /\ c' = next /\ UNCHANGED <<todo, next, s>>
Spec == Init /\ [][Next]_vars

Allowed1 == todo # << >> => Ok(s, todo[1])
Inside == \A x \in s.alive : x[1] \in DOMAIN s.live /\ x[2] + ES <= s.live[x[1]]
Exact == todo = << >> /\ c = next =>
    /\ s.alive = UNION {{<<c[x].blk, k * ES>> : k \in 0..c[x].len - 1} : x \in Cons}
    /\ DOMAIN s.live = {c[x].blk : x \in Cons} \ {0}
    /\ \A x, y \in Cons : x # y /\ c[x].blk = c[y].blk => c[x].blk = 0

(* What a faulty container does is not allowed. *)
A1 == << <<"a", 1, 0, 2>>, <<"b", 1, 0, 1>> >>
ASSUME /\ Allowed(Empty, A1 \o << <<"d", 1, 0, 0>>, <<"f", 1, 0, 0>> >>) /\ Clean(After(Empty, A1 \o << <<"d", 1, 0, 0>>, <<"f", 1, 0, 0>> >>))
       /\ ~Allowed(Empty, A1 \o << <<"f", 1, 0, 0>> >>)                                   \* released with a live object
       /\ ~Allowed(Empty, A1 \o << <<"b", 1, 0, 1>> >>)                                   \* constructed twice
       /\ ~Allowed(Empty, A1 \o << <<"d", 1, 0, 0>>, <<"d", 1, 0, 0>> >>)                 \* destroyed twice
       /\ ~Allowed(Empty, A1 \o << <<"d", 1, 1, 0>> >>)                                   \* destroyed, never constructed
       /\ ~Allowed(Empty, A1 \o << <<"r", 1, 1, 0>> >>)                                   \* assigned, never constructed
       /\ ~Allowed(Empty, A1 \o << <<"b", 1, 2, 1>> >>)                                   \* outside its block
       /\ ~Allowed(Empty, A1 \o << <<"d", 1, 0, 0>>, <<"f", 1, 0, 0>>, <<"f", 1, 0, 0>> >>)  \* released twice
       /\ ~Allowed(Empty, A1 \o << <<"d", 1, 0, 0>>, <<"f", 1, 0, 0>>, <<"b", 1, 0, 1>> >>)  \* constructed in a released block
       /\ ~Clean(After(Empty, A1)) /\ ~Clean(After(Empty, A1 \o << <<"d", 1, 0, 0>> >>))      \* leaks
=============================================================================
