------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* Atoms in range of a centre, through the nearest periodic image, and the *)
(* cell that is left when they are taken out.                              *)
(***************************************************************************)
EXTENDS Crystal
\* sites of kind e (any kind: -1) at squared distance (times N^2) below r2
InRange(c, x, r2, e) ==
    {i \in 1..NSites(c) : (e = -1 \/ c.nums[i] = e) /\ Near(c.G, c.N, Sub(c.sites[i], x), r2)}
InRangeOfAny(c, X, r2, e) == UNION {InRange(c, x, r2, e) : x \in X}
Centres(c, z) == {c.sites[i] : i \in {i \in 1..NSites(c) : c.nums[i] = z}}
\* what is left, in order
Without(c, S) ==
    LET keep == SelectSeq([i \in 1..NSites(c) |-> i], LAMBDA i : i \notin S)
    IN [c EXCEPT !.sites = [k \in 1..Len(keep) |-> c.sites[keep[k]]],
                 !.nums = [k \in 1..Len(keep) |-> c.nums[keep[k]]]]
=============================================================================
