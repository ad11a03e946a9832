---------------------------- MODULE Suite_PopSet ----------------------------
(* Every history of additions, discards, random pops of length DEPTH over three elements, for replay. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT DEPTH
O(n, x) == [op |-> n, x |-> x, xs |-> <<>>]
Ops == {O(n, x) : n \in {"add", "discard"}, x \in 1..3} \cup {O("random_pop", 0)}
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < DEPTH /\ \E o \in Ops : hist' = Append(hist, o)
Emit == Len(hist) = DEPTH => PrintT("B" \o ToJson(hist))
=============================================================================
