------------------------------- MODULE TomlGen -------------------------------
(* Every document made of a few pieces, as far as it is the beginning of a document, and one
   piece further; and what holds of them whatever reads them.                               *)
EXTENDS Toml, TLC, Json
CONSTANTS Voc, MaxLen
VARIABLES b, n
V_lines == {<<91, 97, 93, 10>>,
  <<91, 91, 97, 93, 93, 10>>,
  <<91, 97, 46, 98, 93, 10>>,
  <<91, 91, 97, 46, 98, 93, 93, 10>>,
  <<91, 98, 93, 10>>,
  <<91, 97, 46, 98, 46, 99, 93, 10>>,
  <<97, 61, 49, 10>>,
  <<98, 61, 49, 10>>,
  <<98, 61, 123, 125, 10>>,
  <<97, 61, 91, 123, 125, 93, 10>>,
  <<99, 61, 48, 32, 35, 32, 120, 10>>}
V_header == {<<91>>,
  <<93>>,
  <<97>>,
  <<34, 97, 34>>,
  <<39, 39>>,
  <<46>>,
  <<32>>,
  <<10>>,
  <<98, 61, 49>>,
  <<35>>}
V_value == {<<97, 61>>,
  <<49>>,
  <<45, 49, 46, 53>>,
  <<39, 120, 39>>,
  <<91>>,
  <<93>>,
  <<44>>,
  <<123>>,
  <<125>>,
  <<10>>,
  <<35, 93, 10>>,
  <<32>>}
Tokens == CASE Voc = "lines" -> V_lines [] Voc = "header" -> V_header [] Voc = "value" -> V_value
R == Parse(b)
Viable == R.ok \/ R.i > Len(b)
Start == IF Voc = "value" THEN <<97, 61>> ELSE IF Voc = "header" THEN <<91>> ELSE <<>>
Init == b = Start /\ n = 0
Next == Viable /\ n < MaxLen /\ \E t \in Tokens : b' = b \o t /\ n' = n + 1
Spec == Init /\ [][Next]_<<b, n>>
View == b
RECURSIVE Crlf(_, _)
Crlf(x, i) == IF i > Len(x) THEN <<>> ELSE (IF x[i] = 10 THEN <<13, 10>> ELSE <<x[i]>>) \o Crlf(x, i + 1)
Means(x, r) == LET q == Parse(x) IN q.ok = r.ok /\ (r.ok => q.v = r.v)
\* the ends of lines, blank lines and comments in front and behind change nothing
Layout == Means(Crlf(b, 1), R) /\ Means(<<32, 35, 91, 10, 9, 10>> \o b, R) /\ (R.ok => Means(b \o <<32, 35, 61>>, R) /\ Means(b \o <<10, 10>>, R))
\* what can not be continued stays bad
Bounds == ~Viable => ~Parse(b \o <<10>>).ok /\ ~Parse(b \o <<32, 97, 61, 49, 10>>).ok /\ ~Parse(b \o <<93, 10>>).ok
RECURSIVE Sound(_)
\* values are what the language has: arrays of one kind, tables closed under the same
Sound(v) == CASE v.t = "arr" -> (\A i \in 1..Len(v.c) : KindOf(v.c[i]) = KindOf(v.c[1]) /\ Sound(v.c[i]))
              [] v.t = "aot" -> v.c /= <<>> /\ (\A i \in 1..Len(v.c) : v.c[i].t = "tab" /\ v.c[i].def = "header" /\ Sound(v.c[i]))
              [] v.t = "tab" -> (\A k \in DOMAIN v.m : Sound(v.m[k]))
              [] OTHER -> v.t /= "void"
Values == R.ok => R.v.t = "tab" /\ Sound(R.v)
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [b |-> b'], t |-> 0]))
=============================================================================
