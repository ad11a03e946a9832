---------------------------- MODULE Superlattice ----------------------------
(***************************************************************************)
(* Derivative superlattices: sublattices of index n as integer matrices    *)
(* whose rows are the new lattice vectors, and their reduction under the   *)
(* rotations of the unit cell.                                             *)
(***************************************************************************)
EXTENDS Crystal

\* number of sublattices of index n: sum over a*c*f = n of c * f^2
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[4] + SumSet(S \ {x})
IndexCount(n) == SumSet({<<t[1], t[2], t[3], t[2] * t[3] * t[3]>> :
                    t \in {u \in (1..n) \X (1..n) \X (1..n) : u[1] * u[2] * u[3] = n}})
IndexCount2D(n) == SumSet({<<a, 0, 0, n \div a>> : a \in {x \in 1..n : n % x = 0}})

\* A set of superlattices given by any bases
AllOfIndex(L, n) == \A i \in DOMAIN L : Abs(Det(L[i])) = n
PairwiseDifferent(L) == \A i, j \in DOMAIN L : i < j => ~SameLattice(L[i], L[j])
PairwiseUnrelated(L, P) == \A i, j \in DOMAIN L : i < j => ~RelatedLattices(L[i], L[j], P)
EveryRepresented(L, full, P) == \A h \in full : \E i \in DOMAIN L : RelatedLattices(L[i], h, P)

----------------------------------------------------------------------------
(* The supercell of a crystal c in the lattice H (rows), given by its      *)
(* sites in units of 1/(N*d) of the new basis, d = |det H|.                 *)
InUnits(s, H, d) == RowMul(s, H)            \* d times the position in the unit cell's basis
Tiling(c, H, sites, nums) ==
    LET d == Abs(Det(H))
        ws == {<<Wrap(c.sites[i], c.N), c.nums[i]>> : i \in 1..NSites(c)}
    IN \* the right number of atoms
       [count |-> Len(sites) = d * NSites(c) /\ Len(nums) = Len(sites),
        \* no two on one spot
        distinct |-> Cardinality({Wrap(sites[i], c.N * d) : i \in DOMAIN sites}) = Len(sites),
        \* each one an atom of the crystal
        onsite |-> \A i \in DOMAIN sites :
                     LET y == InUnits(sites[i], H, d)
                     IN /\ \A a \in Ax : y[a] % d = 0
                        /\ <<Wrap(<<y[1] \div d, y[2] \div d, y[3] \div d>>, c.N), nums[i]>> \in ws]
=============================================================================
