------------------------------ MODULE GridStru ------------------------------
(***************************************************************************)
(* Structures on a periodic d x w x l grid: grid point (i, j, k), counted   *)
(* row by row, sits at the fraction (i/d, j/w, k/l) of the lattice whose    *)
(* vectors are the grid steps times d, w and l.                             *)
(***************************************************************************)
EXTENDS Occupation

Lcm(a, b) == (a * b) \div GcdOf(a, b)
Den(s) == Lcm(Lcm(s[1], s[2]), s[3])
Points(s) == s[1] * s[2] * s[3]
\* the k-th grid point, in row order
PointAt(s, k) == LET q == k - 1 IN <<q \div (s[2] * s[3]), (q \div s[3]) % s[2], q % s[3]>>
SiteAt(s, k) == LET p == PointAt(s, k) N == Den(s) IN <<p[1] * (N \div s[1]), p[2] * (N \div s[2]), p[3] * (N \div s[3])>>
Scaled(G, s) == [i \in Ax |-> [j \in Ax |-> G[i][j] * s[i] * s[j]]]
\* the arrangement arr as a crystal
GridCrystal(G, s, arr) ==
    [N |-> Den(s), G |-> Scaled(G, s), sites |-> [k \in 1..Points(s) |-> SiteAt(s, k)], nums |-> arr]
Sea(s, z) == [k \in 1..Points(s) |-> z]

\* B moved by op (a rotation of fractions and a shift in grid steps) is A
MapsOnto(s, op, B, A) ==
    LET N == Den(s)
        t == <<op[2][1] * (N \div s[1]), op[2][2] * (N \div s[2]), op[2][3] * (N \div s[3])>>
    IN \A k \in 1..Points(s) :
         LET y == Wrap(Add(ColMul(op[1], SiteAt(s, k)), t), N)
             p == <<(y[1] * s[1]) \div N, (y[2] * s[2]) \div N, (y[3] * s[3]) \div N>>
         IN A[p[1] * s[2] * s[3] + p[2] * s[3] + p[3] + 1] = B[k]
EqualUnder(s, ops, A, B) == \E o \in Range(ops) : MapsOnto(s, o, B, A)
\* every distance between speckles, own images included, exceeds one unit;
\* G4 is four times the Gram matrix
Separated(G4, s, arr, z) ==
    LET short == {v \in Box(Reach(G4, 4, 1), Reach(G4, 4, 2), Reach(G4, 4, 3)) : Len2(G4, v) <= 4 /\ v # Zero}
        I == {k \in 1..Points(s) : arr[k] = z}
        on == {PointAt(s, k) : k \in I}
    IN \A p \in on : \A v \in short :
         <<(p[1] + v[1]) % s[1], (p[2] + v[2]) % s[2], (p[3] + v[3]) % s[3]>> \notin on
=============================================================================
