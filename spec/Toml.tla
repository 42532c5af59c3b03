--------------------------------- MODULE Toml ---------------------------------
(* TOML documents (version 0.5 without dates, multi-line strings, dotted keys outside of table
   headers, and integers in other bases): which sequences of bytes are documents, and the table
   each of them means.

   Values are records [t, ...]:
     bool [b]   int [neg, d]   flt [neg, d, k] (d * 10^k)   inf [neg]   nan   str [s]
     arr [c: sequence]   tab [m: function from keys to values, def]   aot [c: sequence of tables]
   `def` tells how a table came to be: "root", "implicit" (as the super-table of another),
   "header" or "inline".

   Parsers take the bytes b and a position i, and return [ok, i, v, soft]: `soft` marks what a
   reader may also refuse, like control characters or bytes that are not UTF-8.  A parser that
   fails tells in i where.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
U == INSTANCE Unicode
D == INSTANCE Decimal

Void == [t |-> "void"]
Ok(i, v, soft) == [ok |-> TRUE, i |-> i, v |-> v, soft |-> soft]
Bad(i) == [ok |-> FALSE, i |-> i, v |-> Void, soft |-> FALSE]
Ch(b, i) == IF i <= Len(b) THEN b[i] ELSE 0 - 1
NL(b, i) == Ch(b, i) = 10 \/ (Ch(b, i) = 13 /\ Ch(b, i + 1) = 10)
NLen(b, i) == IF Ch(b, i) = 10 THEN 1 ELSE 2
RECURSIVE WS(_, _)
WS(b, i) == IF Ch(b, i) \in {32, 9} THEN WS(b, i + 1) ELSE i
Control(c) == (c \in 0..31 /\ c /= 9) \/ c = 127
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) \/ NL(b, i) THEN i ELSE LineEnd(b, i + 1)
\* after blanks and a comment, up to the end of the line (not including it): [i, soft]
Comment(b, i0) == LET i == WS(b, i0) IN
  IF Ch(b, i) = 35 THEN LET e == LineEnd(b, i) IN [i |-> e, soft |-> \E k \in i..(e - 1) : Control(b[k])]
  ELSE [i |-> i, soft |-> FALSE]
RECURSIVE Gap(_, _, _)
\* blanks, comments and ends of lines
Gap(b, i0, soft) == LET c == Comment(b, i0) IN
  IF c.i <= Len(b) /\ NL(b, c.i) THEN Gap(b, c.i + NLen(b, c.i), soft \/ c.soft) ELSE [i |-> c.i, soft |-> soft \/ c.soft]

(* -------------------------------------------------------------------------- strings *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0 - 1
RECURSIVE HexRun(_, _, _, _)
\* n hexadecimal digits from i: their value, or -1 - (position of what is not one)
HexRun(b, i, n, acc) == IF n = 0 THEN acc ELSE IF Hex(Ch(b, i)) < 0 THEN (0 - 1) - i
                        ELSE IF acc > 1114111 THEN HexRun(b, i + 1, n - 1, acc) ELSE HexRun(b, i + 1, n - 1, acc * 16 + Hex(Ch(b, i)))
\* the escape at i: [s: the bytes meant, i: what follows] or s = <<>> and where it fails
Escape(b, i) ==
  LET c == Ch(b, i + 1)
      one(x) == [s |-> <<x>>, i |-> i + 2]
      uni(n) == LET h == HexRun(b, i + 2, n, 0) IN
                IF h < 0 THEN [s |-> <<>>, i |-> (0 - 1) - h]
                ELSE IF U!Scalar(h) THEN [s |-> U!Enc8(h), i |-> i + 2 + n] ELSE [s |-> <<>>, i |-> i]
  IN CASE c = 98 -> one(8) [] c = 116 -> one(9) [] c = 110 -> one(10) [] c = 102 -> one(12) [] c = 114 -> one(13)
       [] c = 34 -> one(34) [] c = 92 -> one(92) [] c = 117 -> uni(4) [] c = 85 -> uni(8)
       [] OTHER -> [s |-> <<>>, i |-> i + 1]
RECURSIVE Quoted(_, _, _, _, _)
\* the rest of a string delimited by q (34: basic, 39: literal)
Quoted(b, i, q, acc, soft) ==
  LET c == Ch(b, i) IN
  IF c < 0 \/ NL(b, i) THEN Bad(i)
  ELSE IF c = q THEN Ok(i + 1, [t |-> "str", s |-> acc], soft)
  ELSE IF c = 92 /\ q = 34 THEN LET e == Escape(b, i) IN IF e.s = <<>> THEN Bad(e.i) ELSE Quoted(b, e.i, q, acc \o e.s, soft)
  ELSE Quoted(b, i + 1, q, Append(acc, c), soft \/ Control(c))
String(b, i) == Quoted(b, i + 1, b[i], <<>>, FALSE)

(* -------------------------------------------------------------------------- numbers *)
Digit(c) == c \in 48..57
RECURSIVE RunEnd(_, _)
RunEnd(b, i) == IF Digit(Ch(b, i)) \/ Ch(b, i) = 95 THEN RunEnd(b, i + 1) ELSE i
\* i..e-1 is a run of digits with single underscores between digits
GoodRun(b, i, e) == e > i /\ b[i] /= 95 /\ b[e - 1] /= 95 /\ \A k \in i..(e - 2) : ~(b[k] = 95 /\ b[k + 1] = 95)
RECURSIVE Pick(_, _, _)
Pick(b, i, e) == IF i >= e THEN <<>> ELSE IF b[i] = 95 THEN Pick(b, i + 1, e) ELSE <<b[i] - 48>> \o Pick(b, i + 1, e)
RECURSIVE NoZeros(_)
NoZeros(d) == IF d /= <<>> /\ d[1] = 0 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE Small(_, _)
Small(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 100000 THEN acc ELSE Small(Tail(d), acc * 10 + d[1])
MaxInt == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
MinInt == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
RECURSIVE DigitsLess(_, _, _)
DigitsLess(x, y, i) == IF i > Len(x) THEN FALSE ELSE IF x[i] /= y[i] THEN x[i] < y[i] ELSE DigitsLess(x, y, i + 1)
Above(x, y) == IF Len(x) /= Len(y) THEN Len(x) > Len(y) ELSE DigitsLess(y, x, 1)
Word(b, i, w) == i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w
Number(b, i0) ==
  LET neg == Ch(b, i0) = 45
      i == IF Ch(b, i0) \in {43, 45} THEN i0 + 1 ELSE i0
  IN
  IF Word(b, i, <<105, 110, 102>>) THEN Ok(i + 3, [t |-> "inf", neg |-> neg], FALSE)
  ELSE IF Word(b, i, <<110, 97, 110>>) THEN Ok(i + 3, [t |-> "nan"], FALSE)
  ELSE LET e == RunEnd(b, i) IN
  IF ~GoodRun(b, i, e) THEN Bad(IF e > Len(b) THEN e ELSE i)
  ELSE IF b[i] = 48 /\ e > i + 1 THEN Bad(i)
  ELSE LET int == Pick(b, i, e)
           dot == Ch(b, e) = 46
           f == IF dot THEN RunEnd(b, e + 1) ELSE e
           frac == IF dot THEN Pick(b, e + 1, f) ELSE <<>>
           exp == Ch(b, f) \in {69, 101}
           sg == IF exp /\ Ch(b, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
           x == IF exp THEN RunEnd(b, sg) ELSE f
           ex == IF exp THEN Small(NoZeros(Pick(b, sg, x)), 0) ELSE 0
       IN
       IF dot /\ ~GoodRun(b, e + 1, f) THEN Bad(IF f > Len(b) THEN f ELSE e)
       ELSE IF exp /\ ~GoodRun(b, sg, x) THEN Bad(IF x > Len(b) THEN x ELSE f)
       ELSE IF dot \/ exp
            THEN Ok(x, [t |-> "flt", neg |-> neg, d |-> NoZeros(int \o frac),
                        k |-> (IF exp /\ Ch(b, f + 1) = 45 THEN 0 - ex ELSE ex) - Len(frac)],
                    exp /\ x > sg + 1 /\ b[sg] = 48)        \* leading zeros in an exponent
       ELSE LET d == NoZeros(int) IN
            IF Above(d, IF neg THEN MinInt ELSE MaxInt) THEN Bad(i)
            ELSE Ok(e, [t |-> "int", neg |-> neg /\ d /= <<>>, d |-> d], FALSE)

(* --------------------------------------------------------------------------- values *)
Bare(c) == Digit(c) \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 95}
RECURSIVE BareEnd(_, _)
BareEnd(b, i) == IF Bare(Ch(b, i)) THEN BareEnd(b, i + 1) ELSE i
\* v is a string
Key(b, i) ==
  IF Ch(b, i) \in {34, 39} THEN String(b, i)
  ELSE LET e == BareEnd(b, i) IN IF e = i THEN Bad(i) ELSE Ok(e, [t |-> "str", s |-> SubSeq(b, i, e - 1)], FALSE)

Table(def) == [t |-> "tab", m |-> [k \in {} |-> Void], def |-> def]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
KindOf(v) == IF v.t \in {"flt", "inf", "nan"} THEN "flt" ELSE v.t

RECURSIVE Val(_, _), Items(_, _, _, _), Pairs(_, _, _, _)
Val(b, i) ==
  LET c == Ch(b, i) IN
  IF c \in {34, 39} THEN String(b, i)
  ELSE IF Word(b, i, <<116, 114, 117, 101>>) THEN Ok(i + 4, [t |-> "bool", b |-> TRUE], FALSE)
  ELSE IF Word(b, i, <<102, 97, 108, 115, 101>>) THEN Ok(i + 5, [t |-> "bool", b |-> FALSE], FALSE)
  ELSE IF c = 91 THEN Items(b, i + 1, <<>>, FALSE)
  ELSE IF c = 123 THEN LET j == WS(b, i + 1) IN IF Ch(b, j) = 125 THEN Ok(j + 1, Table("inline"), FALSE) ELSE Pairs(b, j, Table("inline"), FALSE)
  ELSE IF Digit(c) \/ c \in {43, 45, 105, 110} THEN Number(b, i)
  ELSE Bad(i)
\* the rest of an array whose elements so far are acc; all elements are of one kind
Items(b, i0, acc, soft) ==
  LET g == Gap(b, i0, soft) IN
  IF Ch(b, g.i) = 93 THEN Ok(g.i + 1, [t |-> "arr", c |-> acc], g.soft)
  ELSE LET r == Val(b, g.i) IN
       IF ~r.ok THEN r
       ELSE IF acc /= <<>> /\ KindOf(acc[1]) /= KindOf(r.v) THEN Bad(g.i)
       ELSE LET h == Gap(b, r.i, g.soft \/ r.soft)  a == Append(acc, r.v) IN
            IF Ch(b, h.i) = 44 THEN Items(b, h.i + 1, a, h.soft)
            ELSE IF Ch(b, h.i) = 93 THEN Ok(h.i + 1, [t |-> "arr", c |-> a], h.soft)
            ELSE Bad(h.i)
\* key = value at i: v is the pair
Pair(b, i) ==
  LET k == Key(b, i) IN
  IF ~k.ok THEN k
  ELSE LET j == WS(b, k.i) IN
       IF Ch(b, j) /= 61 THEN Bad(j)
       ELSE LET r == Val(b, WS(b, j + 1)) IN
            IF ~r.ok THEN r ELSE Ok(r.i, [t |-> "pair", k |-> k.v.s, v |-> r.v], k.soft \/ r.soft)
\* the rest of an inline table, at a key
Pairs(b, i, tab, soft) ==
  LET p == Pair(b, i) IN
  IF ~p.ok THEN p
  ELSE IF p.v.k \in DOMAIN tab.m THEN Bad(i)
  ELSE LET t == [tab EXCEPT !.m = With(@, p.v.k, p.v.v)]  j == WS(b, p.i) IN
       IF Ch(b, j) = 125 THEN Ok(j + 1, t, soft \/ p.soft)
       ELSE IF Ch(b, j) = 44 THEN Pairs(b, WS(b, j + 1), t, soft \/ p.soft)
       ELSE Bad(j)

(* ------------------------------------------------------------------------ documents *)
\* table headers act on the root: [ok, v: the new table]
No == [ok |-> FALSE, v |-> Void]
Yes(v) == [ok |-> TRUE, v |-> v]
RECURSIVE Open(_, _, _, _)
\* define the table (aot = FALSE) or append an element to the array of tables (aot = TRUE) at path p[j..]
Open(t, p, j, aot) ==
  LET k == p[j]  last == j = Len(p)
      put(r) == IF r.ok THEN Yes([t EXCEPT !.m = With(@, k, r.v)]) ELSE No
  IN
  IF k \notin DOMAIN t.m
  THEN IF ~last THEN put(Open(Table("implicit"), p, j + 1, aot))
       ELSE put(Yes(IF aot THEN [t |-> "aot", c |-> <<Table("header")>>] ELSE Table("header")))
  ELSE LET x == t.m[k] IN
       IF x.t = "tab" /\ x.def /= "inline"
       THEN IF ~last THEN put(Open(x, p, j + 1, aot))
            ELSE IF ~aot /\ x.def = "implicit" THEN put(Yes([x EXCEPT !.def = "header"])) ELSE No
       ELSE IF x.t = "aot"
       THEN IF last THEN (IF aot THEN put(Yes([x EXCEPT !.c = Append(@, Table("header"))])) ELSE No)
            ELSE LET r == Open(x.c[Len(x.c)], p, j + 1, aot) IN
                 IF r.ok THEN put(Yes([x EXCEPT !.c[Len(x.c)] = r.v])) ELSE No
       ELSE No
RECURSIVE Enter(_, _, _, _, _)
\* set key k to v in the table at path p[j..] of t (in the last element of arrays of tables)
Enter(t, p, j, k, v) ==
  IF j > Len(p) THEN (IF k \in DOMAIN t.m THEN No ELSE Yes([t EXCEPT !.m = With(@, k, v)]))
  ELSE LET x == t.m[p[j]]
           r == Enter(IF x.t = "aot" THEN x.c[Len(x.c)] ELSE x, p, j + 1, k, v) IN
       IF ~r.ok THEN No
       ELSE Yes([t EXCEPT !.m = With(@, p[j], IF x.t = "aot" THEN [x EXCEPT !.c[Len(x.c)] = r.v] ELSE r.v)])

RECURSIVE Path(_, _, _, _)
\* the keys of a header from i up to its "]"
Path(b, i0, acc, soft) ==
  LET k == Key(b, WS(b, i0)) IN
  IF ~k.ok THEN k
  ELSE LET j == WS(b, k.i)  a == Append(acc, k.v.s)  s == soft \/ k.soft \/ k.v.s = <<>> IN
       IF Ch(b, j) = 46 THEN Path(b, j + 1, a, s)
       ELSE IF Ch(b, j) = 93 THEN Ok(j, [t |-> "path", p |-> a], s)
       ELSE Bad(j)
RECURSIVE Doc(_, _, _, _, _)
\* the rest of the document from the beginning of a line on, in the table at path
Doc(b, i0, root, path, soft) ==
  LET g == Gap(b, i0, soft) IN
  IF g.i > Len(b) THEN Ok(g.i, root, g.soft)
  ELSE LET aot == Ch(b, g.i) = 91 /\ Ch(b, g.i + 1) = 91
           r == IF Ch(b, g.i) = 91 THEN Path(b, g.i + (IF aot THEN 2 ELSE 1), <<>>, FALSE) ELSE Pair(b, g.i)
       IN
       IF ~r.ok THEN r
       ELSE LET close == IF Ch(b, g.i) = 91 THEN r.i + (IF aot THEN 2 ELSE 1) ELSE r.i
                n == IF Ch(b, g.i) = 91 THEN Open(root, r.v.p, 1, aot) ELSE Enter(root, path, 1, r.v.k, r.v.v)
                c == Comment(b, close)
            IN
            IF aot /\ Ch(b, r.i + 1) /= 93 THEN Bad(r.i + 1)
            ELSE IF ~n.ok THEN Bad(g.i)
            ELSE IF c.i <= Len(b) /\ ~NL(b, c.i) THEN Bad(c.i)
            ELSE Doc(b, c.i, n.v, IF Ch(b, g.i) = 91 THEN r.v.p ELSE path, g.soft \/ r.soft \/ c.soft)
Parse(b) == LET r == Doc(b, 1, Table("root"), <<>>, FALSE) IN
            IF r.ok THEN [r EXCEPT !.soft = @ \/ ~U!Valid8(b)] ELSE r

(* ------------------------------------------- values as a program sees them, and sameness *)
\* o = [t, n, k, c]: t a type, n numbers, k the keys of a table, c the children.
\*   bool n = <<0|1>>; int n = <<neg>> \o decimal digits; flt n = <<neg, e>> \o m in base 10^4, with c = <<>>;
\*   inf n = <<neg>>; nan; str n = bytes; arr; tab
BitsLess(m) == TRUE
Set(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Same(_, _)
Same(v, o) ==
  CASE v.t = "bool" -> o.t = "bool" /\ o.n = <<IF v.b THEN 1 ELSE 0>>
    [] v.t = "int"  -> o.t = "int" /\ o.n = <<IF v.neg THEN 1 ELSE 0>> \o v.d
    [] v.t = "flt"  -> IF o.t = "inf" THEN Len(v.d) + v.k >= 309 /\ o.n = <<IF v.neg THEN 1 ELSE 0>>
                       ELSE /\ o.t = "flt" /\ o.n[1] = (IF v.neg THEN 1 ELSE 0)
                            /\ IF Len(v.d) + v.k > 310 THEN FALSE
                               ELSE IF v.d = <<>> \/ Len(v.d) + v.k < 0 - 330 THEN Len(o.n) = 2
                               ELSE D!Nearest(v.d, v.k, SubSeq(o.n, 3, Len(o.n)), o.n[2])
    [] v.t = "inf"  -> o.t = "inf" /\ o.n = <<IF v.neg THEN 1 ELSE 0>>
    [] v.t = "nan"  -> o.t = "nan"
    [] v.t = "str"  -> o.t = "str" /\ o.n = v.s
    [] v.t \in {"arr", "aot"} -> o.t = "arr" /\ Len(o.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Same(v.c[i], o.c[i])
    [] v.t = "tab"  -> /\ o.t = "tab" /\ Len(o.k) = Len(o.c) /\ Len(o.k) = Cardinality(DOMAIN v.m) /\ Set(o.k) = DOMAIN v.m
                       /\ \A i \in 1..Len(o.k) : Same(v.m[o.k[i]], o.c[i])
    [] OTHER -> FALSE
\* the outcome of loading a file with the bytes b
Loaded(b, st, o) ==
  LET r == Parse(b) IN
  IF st = "ok" THEN r.ok /\ Same(r.v, o) ELSE st /= "abort" /\ ~(r.ok /\ ~r.soft)
=============================================================================
