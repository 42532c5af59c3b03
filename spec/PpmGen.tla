-------------------------------- MODULE PpmGen --------------------------------
(* Small images in every layout of the header: each means its image, no beginning of it is one, and
   the layout does not matter; then headers with one piece replaced.                           *)
EXTENDS Ppm, TLC, Json
VARIABLES doc, img, done
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Px(n) == [k \in 1..n |-> (k * 53) % 256]
Comment == {<<>>, <<35, 10>>, <<35, 32, 49, 32, 49, 10>>, <<35, 97, 10, 35, 35, 10>>}
Gap == {<<32>>, <<10>>, <<9, 32>>, <<13, 10>>}
Magic == <<80, 54, 10>>
Full == <<50, 53, 53>>
Layout(w, h, c, g1, g2, pre) == Magic \o c \o pre \o Num(w) \o g1 \o Num(h) \o g2 \o Full \o <<10>>
Odd == {<<>>, <<45, 49>>, <<43, 49>>, <<48>>, <<97>>, <<50, 53, 52>>, <<50, 53, 54>>, <<57, 57, 57, 57, 57, 57>>, <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>,
        <<52, 50, 57, 52, 57, 54, 55, 50, 57, 55>>, <<52, 50, 57, 52, 57, 54, 55, 53, 53, 49>>, <<35>>, <<255>>, <<0>>}
NoImage == [w |-> 0, h |-> 0]
Init == /\ done = FALSE
        /\ \/ \E w \in {1, 2, 3, 10}, h \in {1, 2, 3}, c \in Comment, g1 \in Gap, g2 \in Gap, pre \in {<<>>, <<32>>} :
                /\ doc = Layout(w, h, c, g1, g2, pre) \o Px(3 * w * h) /\ img = [w |-> w, h |-> h]
           \/ \E k \in 1..4, x \in Odd, y \in {0, 1, 3} :
                /\ img = NoImage
                /\ doc = (IF k = 4 THEN x ELSE Magic) \o (IF k = 1 THEN x ELSE <<50>>) \o <<32>> \o (IF k = 2 THEN x ELSE <<49>>) \o <<32>> \o (IF k = 3 THEN x ELSE Full) \o <<10>> \o Px(6 * y)
           \/ \E c \in {<<80, 53, 10>>, <<80, 51, 10>>, <<112, 54, 10>>, <<80, 54>>, <<80, 54, 32, 10>>, <<>>, <<80>>} : img = NoImage /\ doc = c \o <<49, 32, 49, 32>> \o Full \o <<10>> \o Px(3)
Next == ~done /\ done' = TRUE /\ UNCHANGED <<doc, img>>
Spec == Init /\ [][Next]_<<doc, img, done>>
Laws == img # NoImage =>
  /\ Meaning(doc).kind = "image" /\ Meaning(doc).w = img.w /\ Meaning(doc).h = img.h
  /\ SubSeq(doc, Meaning(doc).at, Len(doc)) = Px(3 * img.w * img.h)
  /\ \A n \in 0..(Len(doc) - 1) : Meaning(SubSeq(doc, 1, n)).kind = "bad"
  \* what follows the pixels does not matter
  /\ Meaning(doc \o <<10, 80>>) = Meaning(doc)
Emit == PrintT("@@" \o ToJson([f |-> 0, o |-> [op |-> "load", doc |-> doc, cut |-> img # NoImage], t |-> 0]))
=============================================================================
