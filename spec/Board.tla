------------------------------- MODULE Board -------------------------------
(***************************************************************************)
(* Site grids: boards of species with assignment and copies.  A board is    *)
(* [shape, cells] with cells a sequence of atomic numbers in row-major      *)
(* order; the state is a sequence of boards.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
FSE == INSTANCE FiniteSetsExt
Size(shape) == shape[1] * shape[2] * shape[3]
\* 1-based place of the 0-based position p
Place(shape, p) == (p[1] * shape[2] + p[2]) * shape[3] + p[3] + 1
Sea(shape, z) == [shape |-> shape, cells |-> [i \in 1..Size(shape) |-> z]]
Assign(b, p, z) == [b EXCEPT !.cells[Place(b.shape, p)] = z]

Ok(st, ret) == [st |-> st, ret |-> ret]
Outcome(st, op) ==
    LET b == st[op.h]
    IN CASE op.op = "set" -> Ok([st EXCEPT ![op.h] = Assign(b, op.p, op.z)], <<>>)
         [] op.op = "get" -> Ok(st, <<b.cells[Place(b.shape, op.p)]>>)
         [] op.op \in {"copy", "through_array"} -> Ok(Append(st, b), <<>>)
         [] op.op = "eq" -> Ok(st, IF st[op.h] = st[op.h2] THEN <<1>> ELSE <<0>>)
         [] op.op = "sea" -> Ok(Append(st, Sea(op.p, op.z)), <<>>)
         \* taking the array out and scribbling on it changes no board
         [] op.op = "scribble" -> Ok(st, <<>>)

\* all placements of k speckles of kind z on a sea of kind y
Placements(shape, y, z, k) ==
    LET n == Size(shape)
    IN IF k < 0 \/ k > n THEN {}
       ELSE {[i \in 1..n |-> IF i \in S THEN z ELSE y] : S \in FSE!kSubset(k, 1..n)}

-----------------------------------------------------------------------------
CONSTANTS SHAPE, KINDS, MAXB
Pos == {<<x, y, z>> : x \in 0..SHAPE[1]-1, y \in 0..SHAPE[2]-1, z \in 0..SHAPE[3]-1}
VARIABLES boards, last
vars == <<boards, last>>
Init == boards = <<Sea(SHAPE, 0)>> /\ last = [op |-> "none", h |-> 1]
Ops == [op : {"set", "get", "copy", "through_array", "eq", "scribble"}, h : DOMAIN boards, h2 : DOMAIN boards, p : Pos, z : KINDS]
Next == \E o \in Ops : LET r == Outcome(boards, o) IN
          Len(r.st) <= MAXB /\ boards' = r.st /\ last' = [op |-> o.op, h |-> o.h]
Spec == Init /\ [][Next]_vars
Isolated == [][\A b \in DOMAIN boards : (b # last'.h \/ last'.op # "set") => boards'[b] = boards[b]]_vars
Shapes == \A b \in DOMAIN boards : DOMAIN boards[b].cells = 1..Size(boards[b].shape)
=============================================================================
