-------------------------------- MODULE String --------------------------------
(* il::String (K = 8) and il::UTF16String (K = 16).
   A string is a sequence of code units v with a kind ty (0 ascii, 1 utf8, 2 wtf8, 3 byte;
   always 0 in UTF-16) that is the join (the maximum) of the kinds of everything it was
   made from.  min is a lower bound for its capacity (what was reserved). *)
EXTENDS Integers, Sequences, FiniteSets, Unicode
CONSTANT NSlots
Slots == 1..NSlots
Off == [on |-> FALSE, v |-> <<>>, ty |-> 0, min |-> 0]
AllOff == [k \in Slots |-> Off]
Empty == [on |-> TRUE, v |-> <<>>, ty |-> 0, min |-> 0]
Small(K) == IF K = 8 THEN 22 ELSE 11
Max2(i, j) == IF i > j THEN i ELSE j
Mk(ty, v) == [on |-> TRUE, v |-> v, ty |-> ty, min |-> 0]
Rep(n, w) == [i \in 1..(n * Len(w)) |-> w[1 + ((i - 1) % Len(w))]]
Part(a, t, p, q) == SubSeq(a[t].v, p + 1, q)
Boundary(v, i) == i = Len(v) \/ ~Cont(v[i + 1])
Range(v, p, q) == 0 <= p /\ p <= q /\ q <= Len(v)
Starts(v, x) == Len(x) <= Len(v) /\ SubSeq(v, 1, Len(x)) = x
Ends(v, x) == Len(x) <= Len(v) /\ SubSeq(v, Len(v) - Len(x) + 1, Len(v)) = x
RECURSIVE Find(_, _, _)
Find(v, x, k) == IF k + Len(x) > Len(v) THEN -1 ELSE IF SubSeq(v, k + 1, k + Len(x)) = x THEN k ELSE Find(v, x, k + 1)
RECURSIVE Less(_, _, _)
Less(v, w, i) == IF i > Len(w) THEN FALSE ELSE IF i > Len(v) THEN TRUE
                 ELSE IF v[i] /= w[i] THEN v[i] < w[i] ELSE Less(v, w, i + 1)
RECURSIVE NextWith(_, _, _)
NextWith(v, S, i) == IF i >= Len(v) THEN -1 ELSE IF v[i + 1] \in S THEN i ELSE NextWith(v, S, i + 1)
RECURSIVE Skip(_, _, _)
Skip(v, S, i) == IF i >= Len(v) \/ ~(v[i + 1] \in S) THEN i ELSE Skip(v, S, i + 1)
Digit == 48..57
Hexa == Digit \cup (65..70) \cup (97..102)
Space == {32, 12, 10, 13, 9, 11}
B(b) == IF b THEN 1 ELSE 0
NewLine(v, i) == v[i + 1] = 10 \/ (v[i + 1] = 13 /\ i + 1 < Len(v) /\ v[i + 2] = 10)
Prefix(v, i, w) == SubSeq(v, 1, i) \o w \o SubSeq(v, i + 1, Len(v))
WellFormed(a) == \A k \in Slots : (~a[k].on => a[k] = Off) /\ a[k].ty \in 0..3
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
RECURSIVE Views(_, _, _)
Views(a, w, i) == IF i > Len(w) THEN <<>> ELSE Part(a, w[i], w[i + 1], w[i + 2]) \o Views(a, w, i + 3)
RECURSIVE Kinds(_, _, _)
Kinds(a, w, i) == IF i > Len(w) THEN 0 ELSE Max2(a[w[i]].ty, Kinds(a, w, i + 3))
Post(K, a, e) ==
  LET s == e.s
      me == a[s]
      v == me.v
      n == Len(v)
      Enc(u) == IF K = 8 THEN Enc8(u) ELSE Enc16(u)
      With(q) == [a EXCEPT ![s] = q]
      Ok(q) == Res(With(q), TRUE, <<>>)
      Is(r) == Res(a, TRUE, r)
      Bad == Res(a, FALSE, <<>>)
      Add(ty, w) == Ok([me EXCEPT !.v = v \o w, !.ty = Max2(me.ty, ty)])
      RuneKind(u) == IF K = 8 /\ u >= 128 THEN 1 ELSE 0
      \* inserting: at a position of the string, and not in the middle of a character
      Into(i, ty, w) == IF i < 0 \/ i > n THEN Bad
                        ELSE IF me.ty = 1 /\ ~Boundary(v, i) THEN Bad
                        ELSE Ok([me EXCEPT !.v = Prefix(v, i, w), !.ty = Max2(me.ty, ty)])
  IN CASE e.op = "new" -> Ok(Empty)
       [] e.op = "new_char" -> IF e.c > 127 THEN Bad ELSE Ok(Mk(0, <<e.c>>))
       [] e.op = "new_lit" -> Ok(Mk(IF K = 8 THEN 1 ELSE 0, e.x))
       [] e.op = "new_lit_t" -> Ok(Mk(e.ty, e.x))
       [] e.op = "new_bytes" -> Ok(Mk(e.ty, e.x))
       [] e.op = "new_views" -> Ok(Mk(Kinds(a, e.w, 1), Views(a, e.w, 1)))      \* a view, or the join of 2 to 6 views
       [] e.op \in {"new_copy", "copy_assign"} -> Ok([a[e.t] EXCEPT !.min = 0])
       [] e.op = "new_move" -> Res([a EXCEPT ![s] = [a[e.t] EXCEPT !.min = 0], ![e.t] = Empty], TRUE, <<>>)
       [] e.op = "move_assign" -> IF e.t = s THEN Ok(me) ELSE Res([a EXCEPT ![s] = [a[e.t] EXCEPT !.min = 0], ![e.t] = Empty], TRUE, <<>>)
       [] e.op = "assign_lit" -> Ok(Mk(IF K = 8 THEN 1 ELSE 0, e.x))
       [] e.op = "destroy" -> Ok(Off)
       [] e.op = "clear" -> Ok([me EXCEPT !.v = <<>>, !.ty = 0])
       [] e.op = "reserve" -> IF e.n < 0 THEN Bad ELSE Ok([me EXCEPT !.min = Max2(me.min, e.n)])
       [] e.op = "append_char" -> IF e.c > 127 THEN Bad ELSE Add(0, <<e.c>>)
       [] e.op = "append_rune" -> IF ~Scalar(e.u) THEN Bad ELSE Add(RuneKind(e.u), Enc(e.u))
       [] e.op = "append_nchar" -> IF e.c > 127 \/ e.n < 0 THEN Bad ELSE Add(0, Rep(e.n, <<e.c>>))
       [] e.op = "append_nrune" -> IF ~Scalar(e.u) \/ e.n < 0 THEN Bad ELSE Add(RuneKind(e.u), Rep(e.n, Enc(e.u)))
       [] e.op = "append_lit" -> Add(IF K = 8 THEN 1 ELSE 0, e.x)
       [] e.op \in {"append_lit_t", "append_bytes"} -> Add(e.ty, e.x)
       [] e.op = "append_views" -> Add(Kinds(a, e.w, 1), Views(a, e.w, 1))     \* up to 3 views, of any string, itself included
       [] e.op = "append_self" -> Add(me.ty, v)
       [] e.op = "append_other" -> Add(a[e.t].ty, a[e.t].v)
       [] e.op = "insert_char" -> IF e.c > 127 THEN Bad ELSE Into(e.i, 0, <<e.c>>)
       [] e.op = "insert_nchar" -> IF e.c > 127 \/ e.n < 0 THEN Bad ELSE Into(e.i, 0, Rep(e.n, <<e.c>>))
       [] e.op = "insert_lit" -> Into(e.i, 1, e.x)
       [] e.op = "insert_bytes" -> Into(e.i, e.ty, e.x)
       [] e.op = "insert_view" -> Into(e.i, a[e.t].ty, Part(a, e.t, e.p, e.q))
       \* reading
       [] e.op = "count" -> Is(<<Cardinality({i \in 1..n : v[i] = e.c})>>)
       [] e.op = "search" -> LET f == Find(v, e.x, 0) IN Is(<<f, B(f >= 0)>>)
       [] e.op \in {"substring", "subview"} ->
            IF ~Range(v, e.p, e.q) THEN Bad
            ELSE IF me.ty = 1 /\ ~(Boundary(v, e.p) /\ Boundary(v, e.q)) THEN Bad
            ELSE Is(<<me.ty>> \o SubSeq(v, e.p + 1, e.q))
       [] e.op = "starts" -> Is(<<B(Starts(v, e.x))>>)
       [] e.op = "ends" -> Is(<<B(Ends(v, e.x))>>)
       [] e.op = "ends_char" -> Is(<<B(n > 0 /\ v[n] = e.c)>>)
       \* isEqual(C string), isEqual(s, n), ==, != with a C string, a view == a C string, C string < s
       [] e.op = "cmp_bytes" -> LET q == v = e.x IN Is(<<B(q), B(q), B(q), B(~q), B(q), B(~q), B(q)>>)
       [] e.op = "less_c" -> Is(<<B(Less(e.x, CStr(v, 1), 1))>>)
       [] e.op = "cmp" -> LET q == v = a[e.t].v IN Is(IF K = 8 THEN <<B(q), B(Less(v, a[e.t].v, 1)), B(Less(a[e.t].v, v, 1))>> ELSE <<B(q)>>)
       [] e.op = "boundary" -> IF e.i < 0 \/ e.i > n \/ me.ty > 1 THEN Bad ELSE Is(<<B(Boundary(v, e.i))>>)
       \* the characters, one after the other, of a well-formed string
       [] e.op = "runes" -> Is((IF K = 8 THEN Runes8(v, 1) ELSE Runes16(v, 1)).u)
       [] e.op = "stream" -> Is(Part(a, s, e.p, e.q))
       \* views: [] and back are checked, next* are not
       [] e.op = "at" -> IF e.i < 0 \/ e.i >= n THEN Bad ELSE Is(<<v[e.i + 1], v[n - e.i]>>)
       [] e.op = "has" -> IF e.i < 0 \/ e.i >= n THEN Bad
                          ELSE LET c == v[e.i + 1] IN Is(<<B(c \in Space), B(c \in Digit), B(c \in Hexa), B(NewLine(v, e.i))>>)
       [] e.op = "next" -> Is(<<NextWith(v, {e.c}, e.i), NextWith(v, Digit, e.i)>>)
       [] e.op = "trim" -> Is(SubSeq(v, Skip(v, {32, 9}, 0) + 1, n))
       [] e.op = "cut" -> IF ~Range(v, e.p, e.q) THEN Bad ELSE Is(Part(a, s, e.p, e.q))   \* removeSuffix then removePrefix
       [] e.op = "number" -> Is((IF e.neg = 1 THEN <<45>> ELSE <<>>) \o [i \in 1..Len(e.d) |-> 48 + e.d[i]])
=============================================================================
