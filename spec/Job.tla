---------------------------------- MODULE Job ----------------------------------
(***************************************************************************)
(* An enumeration job seen from outside: a mother crystal, what may be put  *)
(* on which sites, how many times, which restrictions apply, and the set of *)
(* files it leaves.  Every class of requested structures that qualifies is  *)
(* written once, nothing else is.                                          *)
(***************************************************************************)
EXTENDS Occupation
I == INSTANCE Isometry

Colored(c, col) == [c EXCEPT !.nums = col]
\* a request is a set of pairs <<n, n2>>: n sites of the element become z, n2 others become z2
Asked(c, ele, reqs, z, z2) ==
    UNION {Substituted2(c.nums, SitesOf(c.nums, ele), r[1], z, r[2], z2) : r \in reqs}
\* how often, by command
LevelsAsked(c, ele, z, top) ==
    LET have == Cardinality(SitesOf(c.nums, z)) IN {<<k, 0>> : k \in 1..Max(0, top - have)}
Ternary(A) == {<<a, b>> \in (1..A) \X (1..A) : a + b < A}

Qualifies(c, col, trs, prim) ==
    LET x == Colored(c, col)
    IN /\ (prim => IsPrimitive(x))
       /\ \A i \in DOMAIN trs : AllFurther(x, trs[i].z, trs[i].k)

\* a file that claims to hold the coloring col
Holds(c, f, refined) ==
    LET x == Colored(c, f.claim)
        o == I!Occupied(x)
        m == IF refined THEN Cardinality(PureTranslations(x)) ELSE 1
    IN /\ NSites(o) > 0
       /\ I!SameCrystal(o, f.cert, f.nums)
       /\ Len(f.nums) * m = NSites(o)
=============================================================================
