----------------------------- MODULE ValueStore -----------------------------
(* What it means for a type to be a value type.  Slots hold values; a value can only
   change by an operation which names its slot.  `make` and `mut` compute a value the
   specification does not interpret (`learned`: what the real object shows); the rest
   is defined: a copy is the value of its source, a move transfers the value and leaves
   an empty object, an assignment to oneself changes nothing.                          *)
EXTENDS Integers, Sequences
CONSTANT NSlots
Slots == 1..NSlots
Off == "off"          \* no object
Moved == "moved"      \* moved from, for the types which do not say what is left

Post(v, e, learned, left) ==
  LET s == e.s  t == IF "t" \in DOMAIN e THEN e.t ELSE e.s IN
  CASE e.op \in {"make", "mut"} -> [v EXCEPT ![s] = learned]
    [] e.op \in {"new_copy", "copy_assign"} -> [v EXCEPT ![s] = v[t]]
    [] e.op \in {"new_move", "move_assign"} -> IF s = t THEN v ELSE [v EXCEPT ![s] = v[t], ![t] = left]
    [] e.op = "swap" -> [v EXCEPT ![s] = v[t], ![t] = v[s]]
    [] e.op = "destroy" -> [v EXCEPT ![s] = Off]

(* Operations that make sense (an object moved from may be given a value or destroyed). *)
Enabled(v, e) ==
  LET s == e.s  t == IF "t" \in DOMAIN e THEN e.t ELSE e.s
      has(x) == v[x] # Off /\ v[x] # Moved IN
  CASE e.op = "make" -> v[s] = Off
    [] e.op = "mut" -> has(s)
    [] e.op \in {"new_copy", "new_move"} -> v[s] = Off /\ has(t)
    [] e.op = "copy_assign" -> v[s] # Off /\ has(t)
    [] e.op = "move_assign" -> v[s] # Off /\ has(t)
    [] e.op = "swap" -> has(s) /\ has(t)
    [] e.op = "destroy" -> v[s] # Off
=============================================================================
