------------------------------ MODULE NumpyModel ------------------------------
(* Facts about the format that every use of Numpy.tla rests on, checked on all small files:
   what is encoded reads back, a damaged file never must be accepted as something else.     *)
EXTENDS Numpy, TLC
CONSTANTS MaxDim, Chars
VARIABLES f, what
DimSets == {<<n>> : n \in 0..MaxDim} \cup {<<n, m>> : n \in 0..MaxDim, m \in 0..MaxDim} \cup {<<12>>, <<100, 1>>, <<>>, <<2, 1, 2>>}
Rs == [descr : {<<60>> \o TypeText("i4"), <<60>> \o TypeText("f8"), <<60>> \o TypeText("i8"), <<62>> \o TypeText("i4")}, order : BOOLEAN, shape : DimSets]
SizeOf(r) == Size(IF Tail(r.descr) = TypeText("i4") THEN "i4" ELSE "f8")
Bytes(n) == [k \in 1..n |-> (k * 37) % 256]
File(r) == Encode(r, Bytes(Total(r.shape) * SizeOf(r)))
Init == \E r \in Rs : f = File(r) /\ what = [k |-> "whole", r |-> r]
Cut == what.k = "whole" /\ \E n \in 0..(Len(f) - 1) : f' = SubSeq(f, 1, n) /\ what' = [what EXCEPT !.k = "cut"]
Poke == what.k = "whole" /\ \E n \in 1..Len(f), c \in Chars :
           f[n] /= c /\ f' = [f EXCEPT ![n] = c] /\ what' = [what EXCEPT !.k = IF n <= 10 + HeaderLen(f) THEN "poked" ELSE "data"]
Next == Cut \/ Poke
Spec == Init /\ [][Next]_<<f, what>>
V(kind, type) == Verdict([k |-> "file", b |-> f], kind, type)
Kinds == {"array", "matrix"}   Types == {"i4", "i8", "f8"}
Fits(r, kind, type) == r.descr = <<60>> \o TypeText(type) /\ Len(r.shape) = Rank(kind) /\ (r.order \/ kind = "array")
\* encoded files are canonical, are accepted by exactly the loads they fit, and aligned
RoundTrip == what.k = "whole" =>
  /\ FrameOk(f) /\ (10 + HeaderLen(f)) % 64 = 0 /\ Readings(Header(f)) = {what.r} /\ Canonical(Header(f), what.r)
  /\ \A kind \in Kinds, type \in Types : LET v == V(kind, type) IN
       /\ Fits(what.r, kind, type) <=> v.must = "ok"
       /\ v.must = "ok" => v.vals = {what.r}
       /\ v.must = "err" => v.errs /= {}
\* a truncated file is never accepted
Truncation == what.k = "cut" => \A kind \in Kinds, type \in Types : V(kind, type).must = "err"
\* a byte changed before the data never obliges to accept anything but what the file then says
Damage == what.k = "poked" => \A kind \in Kinds, type \in Types : LET v == V(kind, type) IN
    v.must = "ok" => v.vals = {what.r} \/ (\E r \in v.vals : Canonical(Header(f), r) /\ Total(r.shape) * Size(type) = Len(Payload(f)))
\* and a changed byte in the data changes nothing else
Data == what.k = "data" => \A kind \in Kinds, type \in Types : (V(kind, type).must = "ok") <=> Fits(what.r, kind, type)
=============================================================================
