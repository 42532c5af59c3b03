-------------------------------- MODULE Formats --------------------------------
(* The format of a file is the one its name ends with.  Types: "marr" and "map" (tables), "arr" and
   "mat" (arrays of doubles), "num" (an integer, which no format holds).
   Two files, of names made of bytes; a disk: what is in each, as the type and format of what was
   saved, "junk" for other bytes, or nothing.                                                   *)
EXTENDS Integers, Sequences
Ends(name, s) == Len(name) >= Len(s) /\ SubSeq(name, Len(name) - Len(s) + 1, Len(name)) = s
Npy == <<46, 110, 112, 121>>   Toml == <<46, 116, 111, 109, 108>>   Data == <<46, 100, 97, 116, 97>>   Png == <<46, 112, 110, 103>>
Format(name) == IF Ends(name, Npy) THEN "npy" ELSE IF Ends(name, Toml) THEN "toml" ELSE IF Ends(name, Data) THEN "data" ELSE IF Ends(name, Png) THEN "png" ELSE "none"
Types == {"marr", "map", "arr", "mat", "num"}
Saves(t, f) == <<t, f>> \in {<<"marr", "toml">>, <<"map", "toml">>, <<"marr", "data">>, <<"arr", "npy">>, <<"mat", "npy">>}
Loads(t, f) == <<t, f>> \in {<<"marr", "toml">>, <<"marr", "data">>, <<"map", "data">>, <<"arr", "npy">>, <<"mat", "npy">>}
Nothing == [t |-> "", f |-> "", v |-> 0]
Junk == [t |-> "junk", f |-> "junk", v |-> 0]
Table(t) == t \in {"marr", "map"}
\* what is read as t from x, which was saved as x.t in the format x.f
Fits(t, f, x) == x.f = f /\ (t = x.t \/ (Table(t) /\ Table(x.t)))
\* disk: the names that hold something; replies: [disk, st, v]
R(d, st, v) == [d |-> d, st |-> st, v |-> v]
At(d, n) == IF \E p \in d : p.n = n THEN (CHOOSE p \in d : p.n = n).x ELSE Nothing
Put(d, n, x) == {p \in d : p.n # n} \cup {[n |-> n, x |-> x]}
Post(d, e) ==
  CASE e.op = "save" ->
         IF Saves(e.t, Format(e.n)) THEN R(Put(d, e.n, [t |-> e.t, f |-> Format(e.n), v |-> e.x]), "ok", 0)
         ELSE R(d, "error", 0)                       \* and nothing on the disk changes
    [] e.op = "opts" ->                              \* with options, for .data files only
         IF Saves(e.t, Format(e.n)) THEN R(Put(d, e.n, [t |-> e.t, f |-> "data", v |-> e.x]), "ok", 0) ELSE R(d, "error", 0)
    [] e.op = "load" ->
         LET x == At(d, e.n) IN
         IF Loads(e.t, Format(e.n)) /\ Fits(e.t, Format(e.n), x) THEN R(d, "ok", x.v) ELSE R(d, "error", 0)
    [] e.op = "copy" -> R(IF At(d, e.n) = Nothing THEN d ELSE Put(d, e.m, At(d, e.n)), "ok", 0)
    [] e.op = "junk" -> R(Put(d, e.n, Junk), "ok", 0)
Names(d) == {p.n : p \in d}
=============================================================================
