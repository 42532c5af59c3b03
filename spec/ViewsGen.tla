------------------------------ MODULE ViewsGen ------------------------------
EXTENDS Views, TLC, Json
\* Rank of the container, its shape, which operations its kind has
CONSTANTS N0, N1, HasSubView, HasSubEdit, HasLineView, HasLineEdit, LineDim, HasViewSub, HasEditView, Deep
VARIABLES a, last
N == IF N1 = 9 THEN <<N0>> ELSE <<N0, N1>>
Rg(n) == {<<b, e>> : b \in -1..(n + 1), e \in -1..(n + 1)}
\* well-formed ranges, and a few that are not
Good(n) == {q \in Rg(n) : RangeOk(n, q[1], q[2])}
Some(n) == Good(n) \cup {<<0, n + 1>>, <<-1, n>>, <<n + 1, n + 1>>} \cup (IF n > 1 THEN {<<1, 0>>} ELSE {})
Ranges(ext) == IF Len(ext) = 1 THEN Some(ext[1])
               ELSE {q \o u : q \in Some(ext[1]), u \in Good(ext[2])} \cup {q \o u : q \in {<<0, ext[1]>>}, u \in Some(ext[2])}
Ixs(ext) == {[d \in 1..Len(ext) |-> IF d = 1 THEN i ELSE j] : i \in {-1, 0, ext[1] - 1, ext[1]}, j \in {0, ext[Len(ext)] - 1}}
            \cup (IF Len(ext) = 2 THEN {<<0, -1>>, <<0, ext[2]>>} ELSE {})
W(s) == IF s = 0 THEN {TRUE, FALSE} ELSE IF a.v[s].w THEN {TRUE, FALSE} ELSE {FALSE}
Narrow(k, w) == IF k = 0 THEN (IF w THEN HasSubEdit ELSE HasSubView)
                ELSE IF Len(a.v[k].ext) = 1 THEN TRUE ELSE IF w THEN TRUE ELSE HasViewSub
Srcs == {0} \cup {s \in Slots : a.v[s].on}
Dst(k) == IF Deep THEN Slots ELSE {1}
OpsIn ==
  IF a.n = <<>> THEN {[op |-> "new", n |-> N]} ELSE
  UNION {[op : {"full"}, s : Dst(k), src : {k}, w : W(k)] : k \in Srcs}
  \cup UNION {UNION {IF Narrow(k, w) THEN [op : {"sub"}, s : Dst(k), src : {k}, w : {w}, r : Ranges(Src(a, k).ext)] ELSE {} : w \in W(k)} : k \in Srcs}
  \cup (IF Len(a.n) = 2 THEN UNION {IF (IF w THEN HasLineEdit ELSE HasLineView) THEN [op : {"line"}, s : Dst(0), src : {0}, w : {w}, dim : {LineDim}, r : Some(a.n[LineDim]), j : -1..(a.n[3 - LineDim])] ELSE {} : w \in {TRUE, FALSE}} ELSE {})
  \cup UNION {[op : {"get"}, src : {k}, ix : Ixs(Src(a, k).ext)] : k \in Srcs}
  \cup UNION {[op : {"put"}, src : {k}, ix : Ixs(Src(a, k).ext), x : {50}] : k \in {k \in Srcs : TRUE \in W(k)}}
  \cup UNION {IF Len(Src(a, k).ext) = 1 THEN [op : {"back"}, src : {k}] ELSE {} : k \in Srcs}
  \cup UNION {IF Len(Src(a, k).ext) = 1 /\ TRUE \in W(k) THEN [op : {"putback"}, src : {k}, x : {60}] ELSE {} : k \in Srcs}
  \cup UNION {IF Len(Src(a, k).ext) = 1 THEN [op : {"array"}, src : {k}] ELSE [op : {"dim"}, src : {k}, d : {-1, 0, 1, 2}] : k \in Srcs \ {0}}
  \cup (IF HasViewSub /\ Len(N) = 2 THEN {[op |-> "copy", s |-> s, t |-> t] : s \in {s \in Slots : a.v[s].on /\ Len(a.v[s].ext) = 2}, t \in {t \in Slots : a.v[t].on /\ a.v[t].w /\ Len(a.v[t].ext) = 2}} ELSE {})
  \cup (IF Deep THEN [op : {"drop"}, s : {s \in Slots : a.v[s].on}] ELSE {})
CopyFine(e) == e.op = "copy" => LET x == a.v[e.s]  y == a.v[e.t] IN (x.ext = y.ext => (x.al = y.al \/ Disjoint(x, y)))
Init == a = Empty /\ last = [op |-> "init"]
Next == \E e \in OpsIn : CopyFine(e) /\ LET p == Post(a, e) IN ~p.may /\ a' = p.a /\ last' = e @@ [bad |-> ~p.ok]
Spec == Init /\ [][Next]_<<a, last>>
View == <<a.n, a.v>>
Inv == a.n /= <<>> => WellFormed(a)
\* a write changes one cell; nothing else changes cells
Frame == [][ last'.op \in {"put", "putback"} => Cardinality({k \in 1..Len(a.c) : a'.c[k] /= a.c[k]}) <= 1 ]_<<a, last>>
ReadOnly == [][ last'.op \notin {"new", "put", "putback", "copy"} => a'.c = a.c ]_<<a, last>>
\* what a view of a view selects, its source selects
Inside2 == [][ last'.op \in {"sub", "line", "full"} /\ a' /= a /\ last'.src # 0 => {a'.v[last'.s].al[k] : k \in 1..Len(a'.v[last'.s].al)} \subseteq {a.v[last'.src].al[k] : k \in 1..Len(a.v[last'.src].al)} ]_<<a, last>>
Emit == PrintT("@@" \o ToJson([f |-> View, o |-> last', t |-> <<a'.n, a'.v>>]))
=============================================================================
