-------------------------------- MODULE Status --------------------------------
(* il::Info: a small dictionary from C strings to integers, doubles, booleans and strings;
   il::Status: the outcome of an operation, that must be looked at before it is reused or
   destroyed, and that carries an error and an Info when the operation failed.

   Info: q is the list of the records [k, t, n] stored, in order; the last record of a key
   is the one that counts.  lost: the object has been moved from and its content is not
   specified until it is cleared or assigned.  Keys are the known keys, as bytes.
   Status: ok/chk/err; chk: the outcome has yet to be looked at.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NSlots
Keys == <<<<97>>,
          <<97, 98>>,
          <<97, 98, 99>>,
          <<>>,
          <<98>>,
          <<195, 169>>,
          <<107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107, 107>>,
          <<115, 111, 117, 114, 99, 101, 95, 102, 105, 108, 101>>,
          <<115, 111, 117, 114, 99, 101, 95, 108, 105, 110, 101>>>>
Slots == 1..NSlots
Off == [on |-> FALSE, lost |-> FALSE, q |-> <<>>, ok |-> TRUE, chk |-> FALSE, err |-> 0]
AllOff == [s \in Slots |-> Off]
Fresh == [Off EXCEPT !.on = TRUE]
Last(q, k) == LET I == {i \in 1..Len(q) : q[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
None == [t |-> "none", n |-> <<>>]
Find(q, k) == LET i == Last(q, k) IN IF i = 0 THEN None ELSE [t |-> q[i].t, n |-> q[i].n]
Table(q) == [k \in 1..Len(Keys) |-> Find(q, k)]
KeyOf(b) == CHOOSE k \in 1..Len(Keys) : Keys[k] = b
IsKey(b) == \E k \in 1..Len(Keys) : Keys[k] = b
Rec(k, t, n) == [k |-> k, t |-> t, n |-> n]
SourceFile == Len(Keys) - 1
SourceLine == Len(Keys)
Domain(err) == err \div 256
Res(a, ok, r) == [a |-> a, ok |-> ok, r |-> r]
Get(q, e) == LET f == Find(q, e.k) IN [ok |-> f.t = e.ty, r |-> f.n]
PostInfo(a, e) ==
  LET s == e.s  me == a[s]  With(x) == [a EXCEPT ![s] = x]
      Lost(b, t) == [b EXCEPT ![t].lost = TRUE]
  IN CASE e.op = "new" -> Res(With(Fresh), TRUE, <<>>)
       [] e.op \in {"new_copy", "copy_assign"} -> Res(With(a[e.t]), TRUE, <<>>)
       [] e.op = "new_move" -> Res(Lost(With(a[e.t]), e.t), TRUE, <<>>)
       [] e.op = "move_assign" -> Res(IF s = e.t THEN a ELSE Lost(With(a[e.t]), e.t), TRUE, <<>>)
       [] e.op = "clear" -> Res(With(Fresh), TRUE, <<>>)
       [] e.op = "set" -> Res(With([me EXCEPT !.q = Append(@, Rec(e.k, e.ty, e.n))]), TRUE, <<>>)
       \* the value is a string stored in the same object
       [] e.op = "set_own" -> Res(With([me EXCEPT !.q = Append(@, Rec(e.k, "str", Find(@, e.k2).n))]), TRUE, <<>>)
       \* the key is a string stored in the same object
       [] e.op = "set_named" -> Res(With([me EXCEPT !.q = Append(@, Rec(KeyOf(Find(@, e.k2).n), e.ty, e.n))]), TRUE, <<>>)
       [] e.op = "get" -> LET g == Get(me.q, e) IN IF g.ok THEN Res(a, TRUE, g.r) ELSE Res(a, FALSE, <<>>)
       [] e.op = "destroy" -> Res(With(Off), TRUE, <<>>)
PostStatus(a, e) ==
  LET s == e.s  me == a[s]  With(x) == [a EXCEPT ![s] = x]
      If(c, b, r) == IF c THEN Res(b, TRUE, r) ELSE Res(a, FALSE, <<>>)
      Taken == [With([a[e.t] EXCEPT !.chk = TRUE]) EXCEPT ![e.t].chk = FALSE, ![e.t].lost = TRUE]
      Add(r) == With([me EXCEPT !.q = @ \o r])
      Bad == me.chk /\ ~me.ok
  IN CASE e.op = "new" -> Res(With(Fresh), TRUE, <<>>)
       [] e.op = "new_move" -> Res(Taken, TRUE, <<>>)
       [] e.op = "move_assign" -> If(~me.chk, Taken, <<>>)
       [] e.op = "set_ok" -> If(~me.chk, With([me EXCEPT !.ok = TRUE, !.chk = TRUE, !.lost = FALSE]), <<>>)
       [] e.op = "set_error" -> If(~me.chk, With([Fresh EXCEPT !.ok = FALSE, !.chk = TRUE, !.err = e.err]), <<>>)
       [] e.op = "set" -> If(Bad, Add(<<Rec(e.k, e.ty, e.n)>>), <<>>)
       [] e.op = "source" -> If(Bad, Add(<<Rec(SourceFile, "str", e.n), Rec(SourceLine, "int", <<e.line, 0, 0, 0>>)>>), <<>>)
       [] e.op = "get" -> LET g == Get(me.q, e) IN If(~me.ok /\ g.ok, a, g.r)
       [] e.op = "rearm" -> If(~me.chk, With([me EXCEPT !.chk = TRUE]), <<>>)
       [] e.op = "ok" -> If(me.chk, With([me EXCEPT !.chk = FALSE]), <<IF me.ok THEN 1 ELSE 0>>)
       [] e.op = "ignore" -> If(me.chk, With([me EXCEPT !.chk = FALSE]), <<>>)
       \* stops the program if there is an error (1)
       [] e.op = "abort_on_error" -> If(me.chk, IF me.ok THEN With([me EXCEPT !.chk = FALSE]) ELSE a, <<IF me.ok THEN 0 ELSE 1>>)
       [] e.op = "error" -> If(~me.chk, a, <<me.err, Domain(me.err)>>)
       \* destroying a status that has not been looked at stops the program
       [] e.op = "drop" -> Res(IF me.chk THEN a ELSE With(Off), TRUE, <<IF me.chk THEN 1 ELSE 0>>)
Post(kind, a, e) == IF kind = "info" THEN PostInfo(a, e) ELSE PostStatus(a, e)
=============================================================================
