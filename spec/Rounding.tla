------------------------------ MODULE Rounding ------------------------------
(***************************************************************************)
(* The arithmetic of structure files: what is written (six decimals) and   *)
(* read back (four decimals) stays within the tolerances that FileFormat   *)
(* uses, for every coordinate s/N and every lattice entry and scale of the *)
(* configuration.  All values are integers in units of 1e-6.               *)
(***************************************************************************)
EXTENDS FileFormat
CONSTANTS MAXN, SCALES
LENGTHS == {0, 1, 49, 50, 51, 1999950, 3333333, -2500001, 12345678, -40000049}
VARIABLES N, s, L, p, q
vars == <<N, s, L, p, q>>

\* a / b to the nearest multiple of u, ties either way
Nearest(a, b, u) == {k \in {u * ((a \div (b * u)) + d) : d \in -1..1} : 2 * Abs(k * b - a) <= u * b}
Init == /\ N \in 1..MAXN /\ s \in 0..N-1 /\ L \in LENGTHS /\ p \in SCALES /\ q \in SCALES
Next == FALSE /\ UNCHANGED vars

\* the closest four decimals to the closest six decimals
ReadBack(a, b) == UNION {Nearest(w, 1, 100) : w \in Nearest(a, b, 1)}
Positions == /\ \A r \in ReadBack(s * M6, N) : Within(r, s * M6, N, ReadTol)
             /\ \A w \in Nearest(s * M6, N, 1) : Within(w, s * M6, N, 1)
             \* two roundings are never empty
             /\ ReadBack(s * M6, N) # {}
\* a lattice entry written divided by the scale p/q and read back multiplied
Lattice == \A w \in Nearest(L * q, p, 1) : \A r \in Nearest(w * p, q, 100) :
              Abs(r - L) <= ReadTol + (p \div q) + 1
\* a position read back is still on its site: sites are at least 1/N apart
OnSite == N <= 48 => \A r \in ReadBack(s * M6, N) : \A t \in 0..N-1 : Within(r, t * M6, N, ReadTol) => t = s
=============================================================================
