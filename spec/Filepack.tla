------------------------------- MODULE Filepack -------------------------------
(* Saving trees of values as binary records, loading them again.
   Trees are [t, n, k, c] as in the harness; numbers are their bits.
   opt is a path of keys: the table it leads to is saved as an array of structures.
   A table that is saved and its file loaded gives the same keys, types and values.           *)
EXTENDS Integers, Sequences
Set(s) == {s[i] : i \in 1..Len(s)}
Scalars == {"bool", "int", "f32", "f64", "str"}
Blocks == {"af64", "a2f64", "a2u8"}
NaN64(n, i) == ((n[i + 3] % 32768) \div 16) = 2047 /\ (n[i] + n[i + 1] + n[i + 2] + (n[i + 3] % 16)) > 0
NaN32(n) == ((n[2] % 32768) \div 128) = 255 /\ (n[1] + (n[2] % 128)) > 0
\* doubles one after the other from position p on
Same64(x, y, p) == Len(x) = Len(y) /\ \A i \in 0..(((Len(x) - p + 1) \div 4) - 1) :
                     LET a == p + 4 * i IN SubSeq(x, a, a + 3) = SubSeq(y, a, a + 3) \/ (NaN64(x, a) /\ NaN64(y, a))
Structs(v) == LET size(c) == IF c.t = "af64" THEN Len(c.n) \div 4 ELSE Len(c.n) \div 2 IN
              \A i \in 1..Len(v.c) : v.c[i].t \in {"af64", "ai32"} /\ size(v.c[i]) = size(v.c[1])
RECURSIVE Supported(_, _)
\* what can be in a file (keys of tables are not empty)
Supported(v, opt) ==
  \A i \in 1..Len(v.c) :
    LET c == v.c[i]  here == Len(opt) > 0 /\ opt[1] = v.k[i] IN
    /\ v.k[i] /= <<>>
    /\ IF c.t = "marr" THEN (IF here /\ Len(opt) = 1 THEN Structs(c) ELSE Supported(c, IF here THEN Tail(opt) ELSE <<>>))
       ELSE c.t \in Scalars \cup Blocks
RECURSIVE Back(_, _)
Back(v, o) ==
  IF v.t \in {"map", "marr"}
  THEN /\ o.t = v.t /\ Len(o.k) = Len(v.k) /\ Set(o.k) = Set(v.k)
       /\ \A i \in 1..Len(v.k) : \E j \in 1..Len(o.k) : o.k[j] = v.k[i] /\ Back(v.c[i], o.c[j])
  ELSE /\ o.t = v.t
       /\ CASE v.t = "f64"   -> Same64(v.n, o.n, 1)
            [] v.t = "af64"  -> Same64(v.n, o.n, 1)
            [] v.t = "f32"   -> v.n = o.n \/ (NaN32(v.n) /\ NaN32(o.n))
            [] v.t = "a2f64" -> v.n[1] = o.n[1] /\ v.n[2] = o.n[2] /\ Same64(v.n, o.n, 5)
            [] v.t = "a2u8"  -> v.n[1] = o.n[1] /\ v.n[2] = o.n[2] /\ SubSeq(v.n, 5, Len(v.n)) = SubSeq(o.n, 5, Len(o.n))
            [] OTHER -> v.n = o.n
As(v, t) == [v EXCEPT !.t = t]
\* saving into a place (0: a file, other: where nothing can be written), then loading
Trip(where, opt, v, e) ==
  IF where /= 0 THEN e.save = "error"
  ELSE IF Supported(v, opt) THEN /\ e.save = "ok" /\ e.load = "ok" /\ Back(v, e.o)
                                 /\ e.loadm = "ok" /\ Back(As(v, "map"), e.om)
                                 /\ e.short = <<>>           \* no beginning of the file can be loaded
  ELSE e.save = "error"

(* ---------------------- the records, for tables of booleans, strings and tables *)
RECURSIVE Enc(_, _), EncVal(_)
EncVal(c) == CASE c.t = "bool" -> <<0>> \o c.n
               [] c.t = "str"  -> <<13, Len(c.n)>> \o c.n \o <<0>>
               [] c.t = "marr" -> <<16, Len(c.c)>> \o Enc(c, 1)
Enc(v, i) == IF i > Len(v.c) THEN <<0>> ELSE <<Len(v.k[i])>> \o v.k[i] \o EncVal(v.c[i]) \o Enc(v, i + 1)
NoVal == [ok |-> FALSE, i |-> 0, v |-> [t |-> "void", n |-> <<>>, k |-> <<>>, c |-> <<>>]]
Val(t, n, k, c) == [t |-> t, n |-> n, k |-> k, c |-> c]
Got(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
RECURSIVE Dec(_, _, _), DecVal(_, _)
DecVal(b, i) == IF i + 1 > Len(b) THEN NoVal
  ELSE IF b[i] = 0 THEN Got(i + 2, Val("bool", <<b[i + 1]>>, <<>>, <<>>))
  ELSE IF b[i] = 13 THEN LET e == i + 2 + b[i + 1] IN IF e > Len(b) THEN NoVal ELSE Got(e + 1, Val("str", SubSeq(b, i + 2, e - 1), <<>>, <<>>))
  ELSE IF b[i] = 16 THEN Dec(b, i + 2, Val("marr", <<>>, <<>>, <<>>)) ELSE NoVal
Dec(b, i, acc) == IF i > Len(b) THEN NoVal
  ELSE IF b[i] = 0 THEN Got(i + 1, acc)
  ELSE LET e == i + 1 + b[i] IN
       IF e > Len(b) THEN NoVal
       ELSE LET r == DecVal(b, e) IN IF ~r.ok THEN NoVal
            ELSE Dec(b, r.i, [acc EXCEPT !.k = Append(@, SubSeq(b, i + 1, e - 1)), !.c = Append(@, r.v)])
Read(b) == Dec(b, 1, Val("marr", <<>>, <<>>, <<>>))
=============================================================================
