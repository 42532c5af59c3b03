---------------------------------- MODULE Ppm ----------------------------------
(* Colour images in binary PPM files: what a sequence of bytes means.
     P6 <newline>  comment lines (# ... <newline>)  width  height  255 <newline>  pixels
   numbers are preceded by white space, the pixels are red, green, blue, row after row.
   kind: "image" (that image must be loaded), "bad" (an error must be reported), "open" (allowed by
   some readers only: either an error or any image).                                            *)
EXTENDS Integers, Sequences
Bad == [kind |-> "bad", w |-> 0, h |-> 0, at |-> 0]
Open == [kind |-> "open", w |-> 0, h |-> 0, at |-> 0]
NL == 10   Space == {9, 10, 13, 32}   Digits == 48..57
RECURSIVE Blank(_, _), Line(_, _), Comments(_, _), Digit(_, _, _, _)
Blank(b, i) == IF i <= Len(b) /\ b[i] \in Space THEN Blank(b, i + 1) ELSE i
Line(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = NL THEN i + 1 ELSE Line(b, i + 1)      \* after the end of the line
Comments(b, i) == IF i <= Len(b) /\ b[i] = 35 THEN Comments(b, Line(b, i)) ELSE i
\* digits from i on: [x the number (or -2: too long to be one of ours), i what follows]
Digit(b, i, x, n) == IF i > Len(b) \/ b[i] \notin Digits THEN [x |-> IF n = 0 THEN -1 ELSE IF n > 9 THEN -2 ELSE x, i |-> i, n |-> n]
                     ELSE Digit(b, i + 1, IF n >= 9 THEN 0 ELSE (x * 10) + (b[i] - 48), n + 1)
Number(b, i) == Digit(b, Blank(b, i), 0, 0)
Signed(b, i) == LET j == Blank(b, i) IN j < Len(b) /\ b[j] \in {43, 45} /\ b[j + 1] \in Digits
Meaning(b) ==
  IF Len(b) < 2 \/ b[1] # 80 \/ b[2] # 54 THEN Bad
  ELSE IF Len(b) = 2 THEN Bad
  ELSE IF b[3] # NL THEN Open
  ELSE
  LET s == Comments(b, 4)  w == Number(b, s)  h == Number(b, w.i)  m == Number(b, h.i) IN
  IF \/ Signed(b, s) \/ (w.x # -1 /\ Signed(b, w.i)) \/ (w.x # -1 /\ h.x # -1 /\ Signed(b, h.i))
     THEN (LET j == Blank(b, IF Signed(b, s) THEN s ELSE IF Signed(b, w.i) THEN w.i ELSE h.i) IN
           IF b[j] = 45 /\ b[j + 1] # 48 THEN Bad ELSE Open)
  ELSE IF w.n > 9 \/ (w.x # -1 /\ h.n > 9) \/ (w.x # -1 /\ h.x # -1 /\ m.n > 9) THEN Open   \* larger than any image
  ELSE IF w.x = -1 \/ h.x = -1 \/ m.x = -1 THEN Bad
  ELSE IF m.x # 255 THEN Bad
  ELSE IF m.i > Len(b) THEN (IF w.x = 0 \/ h.x = 0 THEN Open ELSE Bad)
  ELSE IF w.x = 0 \/ h.x = 0 THEN Open
  ELSE IF b[m.i] # NL THEN Open
  ELSE LET left == Len(b) - m.i IN
       IF h.x > (left \div 3) \div w.x THEN Bad
       ELSE [kind |-> "image", w |-> w.x, h |-> h.x, at |-> m.i + 1]
\* the pixels of an image: column i, row j
Pixel(b, r, i, j) == LET p == r.at + (3 * (((j - 1) * r.w) + (i - 1))) IN SubSeq(b, p, p + 2)
Loaded(b, e) == LET r == Meaning(b) IN
  CASE r.kind = "bad"   -> e.st = "error"
    [] r.kind = "open"  -> e.st \in {"ok", "error"}
    [] r.kind = "image" -> /\ e.st = "ok" /\ e.w = r.w /\ e.h = r.h /\ Len(e.px) = 3 * r.w * r.h
                           /\ \A i \in 1..r.w, j \in 1..r.h : LET p == 3 * (((i - 1) * r.h) + (j - 1)) IN SubSeq(e.px, p + 1, p + 3) = Pixel(b, r, i, j)
=============================================================================
