------------------------------ MODULE Isometry ------------------------------
(***************************************************************************)
(* When a second description (some other lattice, some other atoms) is the *)
(* same infinite crystal as c up to a rigid motion.  A certificate gives    *)
(* the second lattice as rows T in units of 1/N of c's basis and the second *)
(* cell's atoms as points y in the same units; gerr and perr bound how far  *)
(* (in 1e-6 A^2 and 1e-6 A) the floats written by the code are from it.     *)
(***************************************************************************)
EXTENDS Crystal

SameCrystal(c, cert, nums2) ==
    LET T == cert.T
        y == cert.y
        d == Abs(Det(T))
        n == NSites(c)
        tr == PureTranslations(c)
        ws == WrapSites(c)
        kinds == {<<ws[i], c.nums[i]>> : i \in 1..n}
    IN /\ cert.gerr <= 50000 /\ cert.perr <= 40000
       /\ d > 0
       /\ \A i \in Ax : Wrap(T[i], c.N) \in tr
       /\ Len(y) = Len(nums2)
       /\ Len(y) * c.N * c.N * c.N = n * d
       /\ \A k \in DOMAIN y : <<Wrap(y[k], c.N), nums2[k]>> \in kinds
       /\ \A j, k \in DOMAIN y : j < k => ~InLattice(Sub(y[j], y[k]), T)
\* the crystal without its vacancies
Occupied(c) ==
    LET keep == SelectSeq([i \in 1..NSites(c) |-> i], LAMBDA i : c.nums[i] # 0)
    IN [c EXCEPT !.sites = [k \in 1..Len(keep) |-> c.sites[keep[k]]],
                 !.nums = [k \in 1..Len(keep) |-> c.nums[keep[k]]]]
=============================================================================
