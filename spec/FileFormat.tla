----------------------------- MODULE FileFormat -----------------------------
(***************************************************************************)
(* What a structure file says.  Lengths are integers in units of 1e-6       *)
(* (Angstrom, or lattice vectors for fractional coordinates).               *)
(*                                                                         *)
(* A structure is [N, L, sites, nums]: lattice rows L (1e-6 A), sites in    *)
(* units of 1/N.  A reading of a file attributes each of its atoms to a     *)
(* site s of the structure and an image k of it; scale is p/q.              *)
(***************************************************************************)
EXTENDS Species
Ax == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
M6 == 1000000
\* integer dot product of a site in units 1/N with column j of L
Dot(s, L, j) == s[1] * L[1][j] + s[2] * L[2][j] + s[3] * L[3][j]

\* four decimals in reading, and the rounding of the file itself
ReadTol == 60
CartTol == 250           \* through a rounded lattice

\* x is a/b up to tol, all in the same unit
Within(x, a, b, tol) == Abs(x * b - a) <= tol * b

LatticeIs(latt, st, p, q, tol) ==
    \A i \in Ax, j \in Ax :
        Abs(latt[i][j] - (st.L[i][j] * p) \div q) <= tol + (p \div q) + 1

\* fractional coordinates
FracIs(x, st, m, tol) ==
    LET s == st.sites[m.s] IN \A j \in Ax : Within(x[j], (s[j] + st.N * m.k[j]) * M6, st.N, tol)
CartIs(x, st, m, tol) ==
    LET s == st.sites[m.s]
        v == [j \in Ax |-> s[j] + st.N * m.k[j]]
    IN \A j \in Ax : Within(x[j], Dot(v, st.L, j), st.N, tol)

\* the atoms are exactly the sites in Keep, each once, with its species
Attributed(src, nums, st, Keep) ==
    /\ Len(src) = Len(nums)
    /\ {src[i].s : i \in DOMAIN src} = Keep
    /\ Len(src) = Cardinality(Keep)
    /\ \A i \in DOMAIN src : nums[i] = st.nums[src[i].s]
AllSites(st) == DOMAIN st.sites
RealSites(st) == {i \in DOMAIN st.sites : st.nums[i] # 0}

FracStructure(d, st, Keep, tol) ==
    /\ Attributed(d.src, d.nums, st, Keep) /\ Len(d.atoms) = Len(d.src)
    /\ \A i \in DOMAIN d.src : FracIs(d.atoms[i], st, d.src[i], tol)
CartStructure(d, st, Keep, tol) ==
    /\ Attributed(d.src, d.nums, st, Keep) /\ Len(d.atoms) = Len(d.src)
    /\ \A i \in DOMAIN d.src : CartIs(d.atoms[i], st, d.src[i], tol)

RECURSIVE Unroll(_, _)
Unroll(species, counts) ==
    IF species = <<>> THEN <<>>
    ELSE [i \in 1..counts[1] |-> species[1]] \o Unroll(Tail(species), Tail(counts))

\* comment, species line, counts and coordinate lines tell one story
Coherent(d) ==
    /\ Len(d.species) = Len(d.counts) /\ \A i \in DOMAIN d.counts : d.counts[i] > 0
    /\ \A i \in DOMAIN d.species : IsSymbol(d.species[i]) /\ d.species[i] # Ghost
    /\ Cardinality({d.species[i] : i \in DOMAIN d.species}) = Len(d.species)
    /\ LET u == Unroll(d.species, d.counts)
       IN /\ Len(u) = Len(d.atoms)
          /\ \A i \in DOMAIN u : d.labels[i] \in {u[i], ""}
          /\ \A i \in DOMAIN u : d.nums[i] = NumberOf(u[i])
    /\ d.comment_ok
    /\ {d.comment[i] : i \in DOMAIN d.comment} = {<<d.species[i], d.counts[i]>> : i \in DOMAIN d.species}
    /\ Len(d.comment) = Len(d.species)
=============================================================================
