------------------------------ MODULE Crystal ------------------------------
(***************************************************************************)
(* Exact, integer-only crystallography.                                    *)
(*                                                                         *)
(* A crystal is a record                                                   *)
(*   [N     |-> common denominator of all fractional coordinates,          *)
(*    G     |-> Gram matrix of the lattice rows, G[i][j] = a_i . a_j,      *)
(*    sites |-> sequence of integer vectors (fractional coordinate * N),   *)
(*    nums  |-> sequence of atomic numbers, 0 for a vacancy]               *)
(*                                                                         *)
(* Distances are exact: the squared length of the fractional vector u/N    *)
(* is  u.G.u / N^2,  so everything below compares integers u.G.u.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ax == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(f) == {f[i] : i \in DOMAIN f}

\* floor of the square root, by bisection (roots up to 46340)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtIn(n, 0, Min(n, 46340) + 1)

------------------------------ (* vectors *) ------------------------------
Vec(x, y, z) == <<x, y, z>>
Zero == <<0, 0, 0>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Mul(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Wrap(u, N) == <<u[1] % N, u[2] % N, u[3] % N>>
\* representative of u modulo N in (-N/2, N/2]
Cen1(x, N) == LET r == x % N IN IF 2 * r > N THEN r - N ELSE r
Centre(u, N) == <<Cen1(u[1], N), Cen1(u[2], N), Cen1(u[3], N)>>

\* u.G.v
Q(G, u, v) ==
    u[1] * (G[1][1] * v[1] + G[1][2] * v[2] + G[1][3] * v[3]) +
    u[2] * (G[2][1] * v[1] + G[2][2] * v[2] + G[2][3] * v[3]) +
    u[3] * (G[3][1] * v[1] + G[3][2] * v[2] + G[3][3] * v[3])
Len2(G, u) == Q(G, u, u)

------------------------------ (* matrices, as rows *) --------------------
Det(M) ==
    M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) -
    M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1]) +
    M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Transpose(M) == <<<<M[1][1], M[2][1], M[3][1]>>,
                  <<M[1][2], M[2][2], M[3][2]>>,
                  <<M[1][3], M[2][3], M[3][3]>>>>
\* row vector times matrix
RowMul(v, M) == <<v[1] * M[1][1] + v[2] * M[2][1] + v[3] * M[3][1],
                  v[1] * M[1][2] + v[2] * M[2][2] + v[3] * M[3][2],
                  v[1] * M[1][3] + v[2] * M[2][3] + v[3] * M[3][3]>>
\* matrix times column vector
ColMul(M, v) == <<M[1][1] * v[1] + M[1][2] * v[2] + M[1][3] * v[3],
                  M[2][1] * v[1] + M[2][2] * v[2] + M[2][3] * v[3],
                  M[3][1] * v[1] + M[3][2] * v[2] + M[3][3] * v[3]>>
MatMul(A, B) == <<RowMul(A[1], B), RowMul(A[2], B), RowMul(A[3], B)>>
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
\* adjugate: M * Adj(M) = Det(M) * Id3
Adj(M) ==
  <<<<M[2][2]*M[3][3] - M[2][3]*M[3][2], M[1][3]*M[3][2] - M[1][2]*M[3][3], M[1][2]*M[2][3] - M[1][3]*M[2][2]>>,
    <<M[2][3]*M[3][1] - M[2][1]*M[3][3], M[1][1]*M[3][3] - M[1][3]*M[3][1], M[1][3]*M[2][1] - M[1][1]*M[2][3]>>,
    <<M[2][1]*M[3][2] - M[2][2]*M[3][1], M[1][2]*M[3][1] - M[1][1]*M[3][2], M[1][1]*M[2][2] - M[1][2]*M[2][1]>>>>
\* Gram matrix of the lattice with rows H in the basis with Gram matrix G
GramOf(H, G) == [i \in Ax |-> [j \in Ax |-> Q(G, H[i], H[j])]]

\* how far an integer vector of squared length <= r2 can reach along axis i
\* (exact where the product fits, otherwise an upper bound)
RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)
ReachOf(adj, det, r2, i) ==
    LET g == GcdOf(adj[i][i], det) a == adj[i][i] \div g d == det \div g
    IN IF a <= 2147483647 \div Max(r2, 1)
       THEN ISqrt((r2 * a) \div d)
       ELSE ISqrt(r2 * (a \div d) + (r2 \div d + 1) * (a % d) + 1)
Reach(G, r2, i) == ReachOf(Adj(G), Det(G), r2, i)
Box(bx, by, bz) == {<<x, y, z>> : x \in -bx..bx, y \in -by..by, z \in -bz..bz}

------------------------------ (* symmetry *) -----------------------------
\* All integer matrices R (acting on fractional columns) with R^T G R = G.
Rotations(G) ==
    LET col(k) == {v \in Box(Reach(G, G[k][k], 1), Reach(G, G[k][k], 2), Reach(G, G[k][k], 3)) : Len2(G, v) = G[k][k]}
        C1 == col(1)
        C2 == col(2)
        C3 == col(3)
        P  == {p \in C1 \X C2 : Q(G, p[1], p[2]) = G[1][2]}
    IN {Transpose(<<t[1][1], t[1][2], t[2]>>) :
          t \in {s \in P \X C3 : /\ Q(G, s[1][1], s[2]) = G[1][3]
                                 /\ Q(G, s[1][2], s[2]) = G[2][3]}}

NSites(c) == Len(c.sites)
WrapSites(c) == [i \in 1..NSites(c) |-> Wrap(c.sites[i], c.N)]
\* no two atoms on one spot
Proper(c) == Cardinality(Range(WrapSites(c))) = NSites(c)

\* Every symmetry operation <<R, t>> with x -> R x + t mapping each atom
\* onto an atom of the same kind, and the permutation of the sites that it
\* induces (perm[i] = the site on which site i lands).
SymOps(c) ==
    LET ws  == WrapSites(c)
        S   == Range(ws)
        idx == [s \in S |-> CHOOSE i \in 1..NSites(c) : ws[i] = s]
        \* anchor: an atom of the rarest kind, to try few translations
        cnt == [z \in Range(c.nums) |-> Cardinality({i \in 1..NSites(c) : c.nums[i] = z})]
        zr  == CHOOSE z \in DOMAIN cnt : \A y \in DOMAIN cnt : cnt[z] <= cnt[y]
        a   == CHOOSE i \in 1..NSites(c) : c.nums[i] = zr
        tgt == {i \in 1..NSites(c) : c.nums[i] = zr}
        \* is <<R, t>> a symmetry?
        Ok(R, t) == \A i \in 1..NSites(c) :
                      LET y == Wrap(Add(ColMul(R, ws[i]), t), c.N)
                      IN y \in S /\ c.nums[idx[y]] = c.nums[i]
        cand(R) == {Wrap(Sub(ws[k], ColMul(R, ws[a])), c.N) : k \in tgt}
    IN UNION {{<<R, t>> : t \in {t \in cand(R) : Ok(R, t)}} : R \in Rotations(c.G)}

PermOf(c, op) ==
    LET ws  == WrapSites(c)
        idx == [s \in Range(ws) |-> CHOOSE i \in 1..NSites(c) : ws[i] = s]
    IN [i \in 1..NSites(c) |-> idx[Wrap(Add(ColMul(op[1], ws[i]), op[2]), c.N)]]

SymPerms(c) ==
    LET ws  == WrapSites(c)
        n   == NSites(c)
        idx == [s \in Range(ws) |-> CHOOSE i \in 1..n : ws[i] = s]
    IN {[i \in 1..n |-> idx[Wrap(Add(ColMul(op[1], ws[i]), op[2]), c.N)]] : op \in SymOps(c)}

PointGroup(c) == {op[1] : op \in SymOps(c)}
\* translations alone (without looking for the rotations; Lemmas.tla checks that it is the same)
PureTranslations(c) ==
    LET ws  == WrapSites(c)
        n   == NSites(c)
        K   == {<<ws[i], c.nums[i]>> : i \in 1..n}
        zr  == CHOOSE z \in Range(c.nums) : \A y \in Range(c.nums) :
                  Cardinality({i \in 1..n : c.nums[i] = z}) <= Cardinality({i \in 1..n : c.nums[i] = y})
        I   == {i \in 1..n : c.nums[i] = zr}
        a   == CHOOSE i \in I : TRUE
    IN {t \in {Wrap(Sub(ws[k], ws[a]), c.N) : k \in I} :
          \A i \in 1..n : <<Wrap(Add(ws[i], t), c.N), c.nums[i]>> \in K}
IsPrimitive(c) == Cardinality(PureTranslations(c)) = 1

\* permutation groups
IsPerm(p, n) == DOMAIN p = 1..n /\ Range(p) = 1..n
Compose(p, q) == [i \in DOMAIN q |-> p[q[i]]]
Inverse(p) == [i \in DOMAIN p |-> CHOOSE j \in DOMAIN p : p[j] = i]
IdPerm(n) == [i \in 1..n |-> i]
IsGroup(P, n) == /\ IdPerm(n) \in P
                 /\ \A p, q \in P : Compose(p, q) \in P

\* a coloring moved by a permutation, and its orbit
Moved(col, p) == [i \in DOMAIN p |-> col[p[i]]]
Orbit(col, P) == {Moved(col, p) : p \in P}
Equivalent(a, b, P) == \E p \in P : \A i \in DOMAIN p : b[i] = a[p[i]]

------------------------------ (* distances *) ----------------------------
\* Squared length (times N^2) of the shortest periodic image of u, not
\* counting the zero vector.  Exact for any cell, however skewed: start from
\* a bound that is certainly reached and look at every image within it.
MinImage2(G, N, u) ==
    LET c  == Centre(u, N)
        l0 == IF c = Zero THEN N * N * Min(G[1][1], Min(G[2][2], G[3][3])) ELSE Len2(G, c)
        \* |t_i N + c_i| <= sqrt(l0 * adj_ii / det)
        B(i) == (ISqrt((l0 * ((Adj(G)[i][i] \div Det(G)) + 1))) + (N \div 2)) \div N + 1
        im == {Add(c, Mul(N, t)) : t \in Box(B(1), B(2), B(3))} \ {Zero}
    IN SetMin({Len2(G, v) : v \in im})

\* the smallest squared distance (times N^2) between two atoms of kind z,
\* periodic images (also an atom's own) included
HasKind(c, z) == \E i \in 1..NSites(c) : c.nums[i] = z
MinDist2(c, z) ==
    LET I == {i \in 1..NSites(c) : c.nums[i] = z}
        D == {Wrap(Sub(c.sites[i], c.sites[j]), c.N) : i \in I, j \in I}
    IN SetMin({MinImage2(c.G, c.N, d) : d \in D})

\* some periodic image of u is shorter than the root of r2 (all times N^2);
\* zero says whether the zero vector counts
HasImage(G, N, u, r2, zero) ==
    LET adj == Adj(G)
        det == Det(G)
        B == [i \in Ax |-> ReachOf(adj, det, r2, i)]
        V == [i \in Ax |-> {x \in -B[i]..B[i] : (x - u[i]) % N = 0}]
    IN \E x \in V[1], y \in V[2], z \in V[3] :
          Len2(G, <<x, y, z>>) < r2 /\ (zero \/ <<x, y, z>> # Zero)
\* within squared distance r2 / N^2 (strictly), images included
Near(G, N, u, r2) == r2 > 0 /\ HasImage(G, N, u, r2, TRUE)
\* every distance between atoms of kind z, own images included, exceeds sqrt(k)/N; two atoms on one spot are at distance 0
AllFurther(c, z, k) ==
    LET I == {i \in 1..NSites(c) : c.nums[i] = z}
        D == {Wrap(Sub(c.sites[i], c.sites[j]), c.N) : i \in I, j \in I}
    IN /\ \A d \in D : ~HasImage(c.G, c.N, d, k + 1, FALSE)
       /\ Cardinality({Wrap(c.sites[i], c.N) : i \in I}) = Cardinality(I)

------------------------------ (* sublattices *) --------------------------
\* rows of A generate a sublattice of the rows of B (both full rank integer)
SubLattice(A, B) ==
    LET d == Abs(Det(B)) P == MatMul(A, Adj(B))
    IN \A i \in Ax : \A j \in Ax : P[i][j] % d = 0
SameLattice(A, B) == Abs(Det(A)) = Abs(Det(B)) /\ SubLattice(A, B)
\* is the integer vector v in the lattice of the rows of H
InLattice(v, H) == LET d == Abs(Det(H)) w == RowMul(v, Adj(H))
                   IN \A i \in Ax : w[i] % d = 0

HNFs(n) ==
    UNION {{<<<<a, b, d>>, <<0, c, e>>, <<0, 0, n \div (a * c)>>>> :
              b \in 0..c-1, d \in 0..(n \div (a * c))-1, e \in 0..(n \div (a * c))-1} :
           <<a, c>> \in {p \in (1..n) \X (1..n) : p[1] * p[2] <= n /\ n % (p[1] * p[2]) = 0}}
HNFs2D(n) ==
    UNION {{<<<<a, b, 0>>, <<0, n \div a, 0>>, <<0, 0, 1>>>> : b \in 0..(n \div a)-1} :
           a \in {x \in 1..n : n % x = 0}}

\* superlattices with row matrices A, B are related by a rotation of P
\* (R acts on columns, so a row h goes to h R^T)
RelatedLattices(A, B, P) == \E R \in P : SameLattice(MatMul(A, Transpose(R)), B)

=============================================================================
