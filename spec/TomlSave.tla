------------------------------- MODULE TomlSave -------------------------------
(* Saving trees of values as TOML documents.
   A tree is [t, n, k, c] as in the harness: leaves
     bool <<0|1>>   int, f64: the bits in pieces of 16, least significant first   str: its bytes
     af64: the numbers of an array one after the other
     a2f64 <<rows, columns, capacities>> and its numbers by columns
   and the composite values arr, map, marr (c the children, k the keys of tables);
   other types can not be in a TOML document.
   What is loaded holds arrays of values, and tables of the type marr.                        *)
EXTENDS Toml
Leaf == {"bool", "int", "f64", "str"}
Doubles == {"af64", "a2f64"}
Tab(v) == v.t \in {"map", "marr"}
\* the kind of value a document has for it
TKind(v) == IF v.t \in Doubles \cup {"arr"} THEN "arr" ELSE IF Tab(v) THEN "tab" ELSE v.t
RECURSIVE Supported(_)
Supported(v) == IF v.t \in Leaf \cup Doubles THEN TRUE
                ELSE IF v.t = "arr" THEN \A i \in 1..Len(v.c) : Supported(v.c[i]) /\ TKind(v.c[i]) = TKind(v.c[1])
                ELSE IF Tab(v) THEN \A i \in 1..Len(v.c) : Supported(v.c[i]) ELSE FALSE
NaNBits(n) == ((n[4] % 32768) \div 16) = 2047 /\ (n[1] + n[2] + n[3] + (n[4] % 16)) > 0
SameF(x, y) == x = y \/ (NaNBits(x) /\ NaNBits(y))
Nth(n, i) == SubSeq(n, 4 * i + 1, 4 * i + 4)
LoadedF(o, x) == o.t = "f64" /\ SameF(o.n, x)
RECURSIVE Back(_, _)
\* o is what the tree v comes back as
Back(v, o) ==
  CASE v.t \in {"bool", "int", "str"} -> o.t = v.t /\ o.n = v.n
    [] v.t = "f64"   -> LoadedF(o, v.n)
    [] v.t = "arr"   -> o.t = "arr" /\ Len(o.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Back(v.c[i], o.c[i])
    [] v.t = "af64"  -> o.t = "arr" /\ Len(o.c) * 4 = Len(v.n) /\ \A i \in 1..Len(o.c) : LoadedF(o.c[i], Nth(v.n, i - 1))
    [] v.t = "a2f64" -> LET r == v.n[1]  w == v.n[2]  e == SubSeq(v.n, 5, Len(v.n)) IN
                        /\ o.t = "arr" /\ Len(o.c) = r
                        /\ \A i \in 1..r : o.c[i].t = "arr" /\ Len(o.c[i].c) = w /\
                             \A j \in 1..w : LoadedF(o.c[i].c[j], Nth(e, (j - 1) * r + i - 1))
    [] Tab(v)        -> /\ o.t = "marr" /\ Len(o.k) = Len(v.k) /\ Set(o.k) = Set(v.k)
                        /\ \A i \in 1..Len(v.k) : \E j \in 1..Len(o.k) : o.k[j] = v.k[i] /\ Back(v.c[i], o.c[j])
    [] OTHER -> FALSE
\* outcome of saving v into a place (0: a file, other: where nothing can be written) and loading it again
Trip(where, v, e) ==
  IF where /= 0 THEN e.save = "error" \/ (where = 2 /\ Len(v.c) = 0 /\ e.save = "ok")
  ELSE IF Supported(v) THEN /\ e.save = "ok" /\ e.load = "ok" /\ Back(v, e.o)
                            /\ Loaded(e.b, "ok", e.od)      \* the file is a document that means what was loaded
  ELSE e.save = "error"

(* ---------------------------------------- one way to write documents that come back *)
RECURSIVE Escaped(_, _)
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Escaped(s, i) == IF i > Len(s) THEN <<>>
  ELSE (IF s[i] \in {34, 92} THEN <<92, s[i]>>
        ELSE IF s[i] < 32 \/ s[i] = 127 THEN <<92, 117, 48, 48, HexDigit(s[i] \div 16), HexDigit(s[i] % 16)>> ELSE <<s[i]>>) \o Escaped(s, i + 1)
WString(s) == <<34>> \o Escaped(s, 1) \o <<34>>
WKey(s) == IF s /= <<>> /\ \A i \in 1..Len(s) : Bare(s[i]) THEN s ELSE WString(s)
RECURSIVE Join(_, _, _), WVal(_), WPairs(_, _), WArr(_, _)
WVal(v) == CASE v.t = "bool" -> IF v.n[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
             [] v.t = "int" -> <<48 + v.n[1]>>           \* 0..9 is enough for a model
             [] v.t = "str" -> WString(v.n)
             [] v.t = "arr" -> <<91>> \o WArr(v, 1) \o <<93>>
             [] OTHER -> <<123>> \o WPairs(v, 1) \o <<125>>
WArr(v, i) == IF i > Len(v.c) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o WVal(v.c[i]) \o WArr(v, i + 1)
WPairs(v, i) == IF i > Len(v.c) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o WKey(v.k[i]) \o <<61>> \o WVal(v.c[i]) \o WPairs(v, i + 1)
Join(p, i, acc) == IF i > Len(p) THEN acc ELSE Join(p, i + 1, (IF i = 1 THEN acc ELSE Append(acc, 46)) \o WKey(p[i]))
RECURSIVE WLines(_, _), WSubs(_, _, _)
WLines(v, i) == IF i > Len(v.c) THEN <<>> ELSE (IF Tab(v.c[i]) THEN <<>> ELSE WKey(v.k[i]) \o <<61>> \o WVal(v.c[i]) \o <<10>>) \o WLines(v, i + 1)
\* sub-tables follow the values
WTable(v, path) == WLines(v, 1) \o WSubs(v, path, 1)
WSubs(v, path, i) == IF i > Len(v.c) THEN <<>>
  ELSE (IF Tab(v.c[i]) THEN LET p == Append(path, v.k[i]) IN <<91>> \o Join(p, 1, <<>>) \o <<93, 10>> \o WTable(v.c[i], p) ELSE <<>>) \o WSubs(v, path, i + 1)
Write(v) == WTable(v, <<>>)
\* the meaning of a document as a tree: integers as a digit, tables in any order
RECURSIVE Alike(_, _)
Alike(v, r) == CASE v.t = "bool" -> r.t = "bool" /\ r.b = (v.n[1] = 1)
                 [] v.t = "int" -> r.t = "int" /\ r.d = (IF v.n[1] = 0 THEN <<>> ELSE <<v.n[1]>>)
                 [] v.t = "str" -> r.t = "str" /\ r.s = v.n
                 [] v.t = "arr" -> r.t = "arr" /\ Len(r.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Alike(v.c[i], r.c[i])
                 [] OTHER -> r.t = "tab" /\ DOMAIN r.m = Set(v.k) /\ \A i \in 1..Len(v.k) : Alike(v.c[i], r.m[v.k[i]])
=============================================================================
