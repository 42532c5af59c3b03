-------------------------------- MODULE Numpy --------------------------------
(* The .npy file format, version 1.0, as a function from bytes to meaning, and what saving
   and loading arrays through it must do.

   A place in the file system is [k |-> "none" | "dir" | "file" | "away" | "full" | "ext", b |-> bytes]:
   nothing there, a directory, a file with the given bytes, a path in a directory that does not
   exist, a device on which every write fails, a name whose extension is not that of a known format.

   A value is [kind |-> "array" | "matrix", type |-> "i4" | "i8" | "f8", dims, data], with data the
   bytes of the elements, little endian, first index fastest.                                *)
EXTENDS Integers, Sequences, FiniteSets

Size(t) == IF t = "i4" THEN 4 ELSE 8
TypeText(t) == CASE t = "i4" -> <<105, 52>> [] t = "i8" -> <<105, 56>> [] OTHER -> <<102, 56>>
Rank(kind) == IF kind = "array" THEN 1 ELSE 2
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------------------ text of a header *)
SP == 32   NL == 10   QU == 39   CO == 58   CM == 44   LP == 40   RP == 41
Magic   == <<147, 78, 85, 77, 80, 89>>
KDescr  == <<39, 100, 101, 115, 99, 114, 39>>                                                   \* 'descr'
KOrder  == <<39, 102, 111, 114, 116, 114, 97, 110, 95, 111, 114, 100, 101, 114, 39>>            \* 'fortran_order'
KShape  == <<39, 115, 104, 97, 112, 101, 39>>                                                   \* 'shape'
TTrue   == <<84, 114, 117, 101>>
TFalse  == <<70, 97, 108, 115, 101>>

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN <<>> ELSE <<SP>> \o Spaces(n - 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE DimText(_, _)
DimText(d, i) == IF i > Len(d) THEN <<>> ELSE (IF i > 1 THEN <<CM, SP>> ELSE <<>>) \o Dec(d[i]) \o DimText(d, i + 1)

\* the text of the dictionary as the format writes it, for texts of byte order + type, order and shape
Dict(descr, order, shape) ==
  <<123>> \o KDescr \o <<CO, SP, QU>> \o descr \o <<QU, CM, SP>> \o KOrder \o <<CO, SP>> \o (IF order THEN TTrue ELSE TFalse)
  \o <<CM, SP>> \o KShape \o <<CO, SP, LP>> \o DimText(shape, 1) \o (IF Len(shape) = 1 THEN <<CM>> ELSE <<>>) \o <<RP, CM, SP, 125>>

Encode(r, data) ==
  LET d == Dict(r.descr, r.order, r.shape)
      pad == (64 - ((10 + Len(d) + 1) % 64)) % 64
      h == d \o Spaces(pad) \o <<NL>>
  IN Magic \o <<1, 0, Len(h) % 256, Len(h) \div 256>> \o h \o data

(* --------------------------------------------------------------------------- reading *)
At(h, i, w) == i >= 1 /\ i + Len(w) - 1 <= Len(h) /\ SubSeq(h, i, i + Len(w) - 1) = w
RECURSIVE Skip(_, _)
Skip(h, i) == IF i <= Len(h) /\ h[i] = SP THEN Skip(h, i + 1) ELSE i
Ch(h, i) == IF i >= 1 /\ i <= Len(h) THEN h[i] ELSE 0 - 1
IsDigit(c) == c >= 48 /\ c <= 57

\* where the value of a key may begin
ValueAt(h, key) == {Skip(h, Skip(h, i + Len(key)) + 1) : i \in {j \in 1..Len(h) : h[j] = QU /\ At(h, j, key) /\ Ch(h, Skip(h, j + Len(key))) = CO}}

RECURSIVE QuoteEnd(_, _)
QuoteEnd(h, i) == IF i > Len(h) THEN 0 ELSE IF h[i] = QU THEN i ELSE QuoteEnd(h, i + 1)
Descrs(h) == {SubSeq(h, i + 1, QuoteEnd(h, i + 1) - 1) : i \in {j \in ValueAt(h, KDescr) : Ch(h, j) = QU /\ QuoteEnd(h, j + 1) > 0}}
Orders(h) == {TRUE : i \in {j \in ValueAt(h, KOrder) : At(h, j, TTrue)}} \cup {FALSE : i \in {j \in ValueAt(h, KOrder) : At(h, j, TFalse)}}

\* numbers are exact below the cap; from it on they only count as "more than any file here holds"
Cap == 10000000
RECURSIVE DigitsEnd(_, _)
DigitsEnd(h, i) == IF IsDigit(Ch(h, i)) THEN DigitsEnd(h, i + 1) ELSE i
RECURSIVE DigitsVal(_, _, _)
DigitsVal(h, i, e) == IF e <= i THEN 0 ELSE 10 * DigitsVal(h, i, e - 1) + (h[e - 1] - 48)
RECURSIVE NoZeros(_, _, _)
NoZeros(h, i, e) == IF i < e /\ h[i] = 48 THEN NoZeros(h, i + 1, e) ELSE i
\* the number written at i..e-1
Number(h, i0, e) == LET i == NoZeros(h, i0, e) IN IF e - i > 7 THEN Cap ELSE DigitsVal(h, i, e)
\* the sequences of dimensions that can be read at i (at most one)
RECURSIVE Dims(_, _, _)
Dims(h, i0, acc) ==
  LET i == Skip(h, i0) IN
  IF Ch(h, i) = RP THEN {acc}
  ELSE LET e == DigitsEnd(h, i)  m == Skip(h, e) IN
       IF e = i THEN {}
       ELSE LET a == Append(acc, Number(h, i, e)) IN
            IF Ch(h, m) = CM THEN Dims(h, m + 1, a) ELSE IF Ch(h, m) = RP THEN {a} ELSE {}
Shapes(h) == UNION {Dims(h, i + 1, <<>>) : i \in {j \in ValueAt(h, KShape) : Ch(h, j) = LP}}

Readings(h) == [descr : Descrs(h), order : Orders(h), shape : Shapes(h)]

FrameOk(b) == Len(b) >= 10 /\ SubSeq(b, 1, 6) = Magic /\ b[7] = 1 /\ b[8] = 0 /\ Len(b) >= 10 + b[9] + 256 * b[10]
HeaderLen(b) == b[9] + 256 * b[10]
Header(b) == SubSeq(b, 11, 10 + HeaderLen(b))
Payload(b) == SubSeq(b, 11 + HeaderLen(b), Len(b))

RECURSIVE AllSpace(_, _)
AllSpace(h, i) == IF i > Len(h) THEN TRUE ELSE IF h[i] = SP THEN AllSpace(h, i + 1) ELSE FALSE
\* h is the text of the reading r exactly as the format writes it
Canonical(h, r) ==
  /\ \A i \in 1..Len(r.shape) : r.shape[i] < Cap
  /\ LET d == Dict(r.descr, r.order, r.shape) IN
     /\ Len(h) > Len(d) /\ SubSeq(h, 1, Len(d)) = d /\ h[Len(h)] = NL
     /\ AllSpace(SubSeq(h, 1, Len(h) - 1), Len(d) + 1)

RECURSIVE Count(_, _)
\* number of elements, capped
Count(d, i) == IF i > Len(d) THEN 1 ELSE IF d[i] = 0 THEN 0 ELSE
  LET c == Count(d, i + 1) IN IF c = 0 THEN 0 ELSE IF d[i] >= Cap \div c THEN Cap ELSE d[i] * c
\* 0 wins wherever it is
Total(d) == IF \E i \in 1..Len(d) : d[i] = 0 THEN 0 ELSE Count(d, 1)
Big(d) == \E i \in 1..Len(d) : d[i] >= Cap

(* ------------------------------------------------- loading as `kind` of element type `type` *)
\* what stands in the way of taking the reading r of a file with n bytes of payload
LittleEndian(r) == r.descr /= <<>> /\ r.descr[1] = 60
Faults(r, n, kind, type) ==
  (IF LittleEndian(r) THEN (IF Tail(r.descr) = TypeText(type) THEN {} ELSE {"BinaryFileWrongType"})
   ELSE IF r.descr /= <<>> /\ r.descr[1] \in {61, 124} /\ Tail(r.descr) = TypeText(type) THEN {}   \* '=', '|': see Soft
   ELSE IF r.descr = TypeText(type) THEN {} ELSE {"BinaryFileWrongType", "BinaryFileWrongFormat"})
  \cup (IF Len(r.shape) = Rank(kind) THEN {} ELSE {"BinaryFileWrongRank"} \cup (IF r.shape = <<>> THEN {"BinaryFileWrongFormat"} ELSE {}))
  \cup (IF Rank(kind) = 2 /\ ~r.order /\ (\A i \in 1..Len(r.shape) : r.shape[i] > 1) THEN {"BinaryFileWrongEndianness"} ELSE {})
  \cup (IF Total(r.shape) > n \div Size(type) THEN {"BinaryFileWrongFormat"} ELSE {})
\* readings that may be taken, or refused: the format leaves it open or the bytes do not depend on it
Soft(r, n, kind, type) ==
  \/ ~LittleEndian(r) \/ Big(r.shape) \/ n > Total(r.shape) * Size(type)
  \/ (Rank(kind) = 2 /\ ~r.order)

FormatErrors == {"BinaryFileWrongFormat", "BinaryFileWrongType", "BinaryFileWrongRank", "BinaryFileWrongEndianness"}
\* [must, errs, vals]: must = "ok", "err" or "any"; the errors that may be reported; the readings that may be taken
NoFile == [must |-> "err", errs |-> {"FilesystemFileNotFound"}, vals |-> {}]
Unknown == [must |-> "err", errs |-> {"Undefined"}, vals |-> {}]
Verdict(f, kind, type) ==
  IF f.k \in {"none", "away"} THEN NoFile
  ELSE IF f.k = "ext" THEN Unknown
  ELSE IF f.k = "dir" THEN [NoFile EXCEPT !.errs = @ \cup {"BinaryFileWrongFormat"}]
  ELSE IF f.k = "full" THEN [must |-> "err", errs |-> FormatErrors, vals |-> {}]
  ELSE IF ~FrameOk(f.b) THEN [must |-> "err", errs |-> {"BinaryFileWrongFormat"}, vals |-> {}]
  ELSE LET h == Header(f.b)  n == Len(f.b) - 10 - Len(h)  R == Readings(h)
           good == {r \in R : Faults(r, n, kind, type) = {}} IN
       IF R = {} THEN [must |-> "err", errs |-> {"BinaryFileWrongFormat"}, vals |-> {}]
       ELSE IF \E r \in R : Canonical(h, r)
            THEN LET r == CHOOSE q \in R : Canonical(h, q)  fs == Faults(r, n, kind, type) IN
                 IF fs /= {} THEN [must |-> "err", errs |-> fs \cup (IF LittleEndian(r) THEN {} ELSE {"BinaryFileWrongFormat"}), vals |-> {}]
                 ELSE [must |-> IF Soft(r, n, kind, type) THEN "any" ELSE "ok", errs |-> FormatErrors, vals |-> {r}]
            ELSE [must |-> IF good = {} THEN "err" ELSE "any", errs |-> FormatErrors, vals |-> good]

\* the outcome o = [st, dims, data] of a load
\* a sparse matrix ("csr") is three files beside the one named; there are none here
Loaded(f, kind, type, o) ==
  IF kind = "csr" THEN o.st /= "ok" /\ o.st /= "abort" /\ o.data = <<>>
  ELSE LET v == Verdict(f, kind, type) IN
  IF o.st = "ok"
  THEN /\ v.must /= "err"
       /\ \E r \in v.vals : /\ Len(o.dims) = Len(r.shape)
                            /\ \A i \in 1..Len(o.dims) : o.dims[i] = r.shape[i] \/ (r.shape[i] = Cap /\ o.dims[i] >= Cap)
                            /\ o.data = SubSeq(Payload(f.b), 1, Total(r.shape) * Size(type))
  ELSE /\ v.must /= "ok" /\ o.st \in v.errs
       /\ o.data = <<>> /\ \A i \in 1..Len(o.dims) : o.dims[i] = 0     \* an error comes with no data

(* ------------------------------------------------------------------------------- saving *)
Element(data, sz, i) == SubSeq(data, (i - 1) * sz + 1, i * sz)
\* the payload holds the value v if read in the order of the reading r
Holds(r, p, v) ==
  LET sz == Size(v.type)  n == Total(v.dims) IN
  /\ Len(p) = n * sz
  /\ IF r.order \/ Len(v.dims) = 1 THEN p = v.data
     ELSE \A i \in 0..(v.dims[1] - 1), j \in 0..(v.dims[2] - 1) : Element(p, sz, i * v.dims[2] + j + 1) = Element(v.data, sz, j * v.dims[1] + i + 1)
WellSaved(b, v) ==
  /\ FrameOk(b) /\ (10 + HeaderLen(b)) % 64 = 0
  /\ \E r \in Readings(Header(b)) : /\ Canonical(Header(b), r) /\ r.descr = <<60>> \o TypeText(v.type) /\ r.shape = v.dims
                                    /\ Holds(r, Payload(b), v)
\* st and the file g after saving v at a place that was f
Saved(f, v, st, g) ==
  IF f.k \in {"dir", "away"} THEN st = "FilesystemFileNotFound" /\ g = f
  ELSE IF f.k = "ext" THEN st = "Undefined" /\ g = f
  ELSE IF f.k = "full" THEN st \in {"FilesystemCanNotWriteToFile", "FilesystemCanNotCloseFile"} /\ g = f
  ELSE st = "ok" /\ g.k = "file" /\ WellSaved(g.b, v)
=============================================================================
