------------------------------- MODULE Lemmas -------------------------------
(***************************************************************************)
(* The theory the trace specifications rest on, checked over every small   *)
(* crystal: each state is one crystal (lattice, grid, sites, species); the *)
(* species are chosen in a step of their own so that the workers share them *)
(***************************************************************************)
EXTENDS Job, Sphere
S == INSTANCE Superlattice

CONSTANTS NGRID,        \* denominators of the coordinates
          MAXSITES, ZS, \* most sites, the species
          SHAPES        \* which of the lattices

AllGrams == << <<<<9,0,0>>, <<0,9,0>>, <<0,0,9>>>>,            \* cubic
               <<<<8,4,4>>, <<4,8,4>>, <<4,4,8>>>>,            \* face centred
               <<<<8,-4,0>>, <<-4,8,0>>, <<0,0,25>>>>,         \* hexagonal
               <<<<10,1,2>>, <<1,12,3>>, <<2,3,16>>>>,         \* triclinic
               <<<<9,18,0>>, <<18,45,0>>, <<0,0,16>>>> >>      \* tetragonal, in a skewed basis

VARIABLES c, full       \* the crystal; whether its species have been chosen
Grid(N) == {<<x, y, z>> : x \in 0..N-1, y \in 0..N-1, z \in 0..N-1}
\* every site set up to a shift of the origin
SiteSets(N) == {{Zero} \cup s : s \in UNION {FSE!kSubset(k, Grid(N) \ {Zero}) : k \in 0..MAXSITES-1}}
AsSeq(s) == FSE!FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, s)
Init == \E N \in NGRID, g \in SHAPES : \E s \in SiteSets(N) :
            /\ c = [N |-> N, G |-> AllGrams[g], sites |-> AsSeq(s), nums |-> [i \in 1..Cardinality(s) |-> 0]]
            /\ full = FALSE
Next == /\ ~full /\ full' = TRUE
        /\ \E z \in [DOMAIN c.sites -> ZS] : c' = [c EXCEPT !.nums = z]
n == NSites(c)
Sites == 1..n

----------------------------------------------------------------------------
\* symmetry operations form a group, act as permutations, and split into translations and point operations
After(p, q) == <<MatMul(p[1], q[1]), Wrap(Add(ColMul(p[1], q[2]), p[2]), c.N)>>
OpsGroup == LET O == SymOps(c) IN
    /\ <<Id3, Zero>> \in O
    /\ \A p, q \in O : Cardinality(O) > 20 \/ After(p, q) \in O
    /\ \A p \in O : IsPerm(PermOf(c, p), n) /\ (\A i \in Sites : c.nums[PermOf(c, p)[i]] = c.nums[i])
    /\ \A p \in O : \E q \in O : After(p, q) = <<Id3, Zero>>
PermsGroup == IsGroup(SymPerms(c), n)
Split == LET O == SymOps(c) T == PureTranslations(c) IN
    /\ T = {o[2] : o \in {q \in O : q[1] = Id3}}
    /\ Cardinality(O) = Cardinality({o[1] : o \in O}) * Cardinality(T)
    /\ \A R \in PointGroup(c) : Abs(Det(R)) = 1 /\ GramOf(Transpose(R), c.G) = c.G
\* conversely, whatever keeps the lattice and maps atoms onto atoms is listed (tried with every translation of the grid)
AllOps == LET O == SymOps(c) K == {<<c.sites[i], c.nums[i]>> : i \in Sites} IN
    \A R \in Rotations(c.G), t \in Grid(c.N) :
        (\A i \in Sites : <<Wrap(Add(ColMul(R, c.sites[i]), t), c.N), c.nums[i]>> \in K) => <<R, t>> \in O

----------------------------------------------------------------------------
\* distances: the search boxes are large enough, and symmetry keeps distances
Brute(u) == {Len2(c.G, Add(u, Mul(c.N, t))) : t \in Box(4, 4, 3)} \ {0}
Distances == LET D == {Wrap(Sub(c.sites[i], c.sites[j]), c.N) : i \in Sites, j \in Sites} IN
    /\ \A d \in D : MinImage2(c.G, c.N, d) = SetMin(Brute(d))
    /\ \A d \in D : LET m == MinImage2(c.G, c.N, d) IN
          /\ HasImage(c.G, c.N, d, m + 1, FALSE) /\ ~HasImage(c.G, c.N, d, m, FALSE)
          /\ HasImage(c.G, c.N, d, 1, TRUE) = (d = Zero)
    /\ \A d \in D : \A R \in PointGroup(c) : MinImage2(c.G, c.N, ColMul(R, d)) = MinImage2(c.G, c.N, d)
    /\ \A z \in Range(c.nums) : LET k == MinDist2(c, z) IN AllFurther(c, z, k - 1) /\ ~AllFurther(c, z, k)
Radii == {1, 5 * c.N * c.N, 9 * c.N * c.N, 10 * c.N * c.N}
RangeLemma == \A r2 \in Radii : \A i, j \in Sites :
    (j \in InRange(c, c.sites[i], r2, -1)) = (i \in InRange(c, c.sites[j], r2, -1))
\* taking out around one centre after the other, in any order, is taking out around all of them at once
RECURSIVE OneByOne(_, _, _)
OneByOne(d, X, r2) ==
    IF X = {} THEN {d}
    ELSE UNION {OneByOne(Without(d, InRange(d, x, r2, -1)), X \ {x}, r2) : x \in X}
ClearLemma == \A r2 \in Radii : \A z \in Range(c.nums) :
    OneByOne(c, Centres(c, z), r2) = {Without(c, InRangeOfAny(c, Centres(c, z), r2, -1))}

----------------------------------------------------------------------------
\* what qualifies for a file does so for its whole class, so that reducing first and testing afterwards is sound
Colorings == [Sites -> ZS]
QualifyLemma == LET P == SymPerms([c EXCEPT !.nums = [i \in Sites |-> 6]]) IN
    \A col \in Colorings : \A p \in P :
        /\ IsPrimitive(Colored(c, Moved(col, p))) = IsPrimitive(Colored(c, col))
        /\ \A z \in Range(col) : MinDist2(Colored(c, Moved(col, p)), z) = MinDist2(Colored(c, col), z)
\* equivalence is an equivalence, and Burnside counts its classes
BurnsideLemma == LET P == SymPerms(c) IN
    Cardinality({Orbit(col, P) : col \in Colorings}) = Burnside(Colorings, P)

----------------------------------------------------------------------------
\* the crystal described in a sublattice, by placing every atom in every cell of it
Shapes == {h \in HNFs(2) \cup HNFs(3) : TRUE}
TiledIn(H) ==
    LET d == Det(H)
        cells == {v \in Box(d, d, d) : LET w == RowMul(v, Adj(H)) IN \A a \in Ax : w[a] >= 0 /\ w[a] < d}
        pl == {<<Wrap(RowMul(Add(c.sites[i], Mul(c.N, v)), Adj(H)), c.N * d), c.nums[i]>> : i \in Sites, v \in cells}
        q == AsSeq(pl)
    IN [N |-> c.N * d, G |-> GramOf(H, c.G), sites |-> [k \in DOMAIN q |-> q[k][1]], nums |-> [k \in DOMAIN q |-> q[k][2]]]
TileLemma == \A H \in Shapes :
    LET t == TiledIn(H) r == S!Tiling(c, H, t.sites, t.nums) IN
    /\ r.count /\ r.distinct /\ r.onsite
    \* it has the translations of the sublattice on top of its own
    /\ Cardinality(PureTranslations(t)) = Det(H) * Cardinality(PureTranslations(c))
    \* and is the same crystal by the test used for files and standardised cells
    /\ I!SameCrystal(c, [T |-> [a \in Ax |-> Mul(c.N, H[a])], gerr |-> 0, perr |-> 0,
                         y |-> [k \in DOMAIN t.sites |-> LET v == RowMul(t.sites[k], H) IN
                                   <<v[1] \div Det(H), v[2] \div Det(H), v[3] \div Det(H)>>]], t.nums)
\* one atom of another species makes it another crystal
OtherLemma == \A i \in Sites : \A z \in ZS \ {c.nums[i]} :
    ~I!SameCrystal(c, [T |-> [a \in Ax |-> Mul(c.N, Id3[a])], gerr |-> 0, perr |-> 0, y |-> c.sites], [c.nums EXCEPT ![i] = z])
=============================================================================
