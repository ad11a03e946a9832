-------------------------------- MODULE Bucky --------------------------------
(***************************************************************************)
(* The buckyball as a graph, its automorphisms computed from the bonds      *)
(* alone, and colorings of its 60 sites.  A coloring is the set of          *)
(* <<site, species>> that are not carbon.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
FSE == INSTANCE FiniteSetsExt
V == 1..60

\* edges as a set of two-element sets
Neighbours(E) == [v \in V |-> {w \in V : {v, w} \in E}]
RECURSIVE Layers(_, _, _, _)
Layers(nb, seen, front, k) ==
    IF front = {} THEN <<>>
    ELSE LET nxt == UNION {nb[v] : v \in front} \ (seen \cup front)
         IN <<front>> \o Layers(nb, seen \cup front, nxt, k + 1)
Distances(nb) ==
    TLCEval([v \in V |-> LET L == Layers(nb, {}, {v}, 0)
                 IN TLCEval([w \in V |-> IF \E i \in DOMAIN L : w \in L[i]
                                         THEN (CHOOSE i \in DOMAIN L : w \in L[i]) - 1 ELSE 99])])
\* a truncated icosahedron: 60 sites with three bonds each, all connected, every site on exactly
\* one ring of five, rings of five apart from each other
Pentagons(nb, v) ==
    {s \in {{v, a, b, c, d} : a \in nb[v], b \in nb[v], c \in UNION {nb[x] : x \in nb[v]}, d \in UNION {nb[x] : x \in nb[v]}} :
        Cardinality(s) = 5 /\ \A x \in s : Cardinality(nb[x] \cap s) = 2}
IsBuckyball(E, nb, D) ==
    /\ Cardinality(E) = 90
    /\ \A v \in V : Cardinality(nb[v]) = 3 /\ Cardinality(Pentagons(nb, v)) = 1
    /\ \A v, w \in V : D[v][w] <= 9

Sig(D, t) == [v \in V |-> <<D[t[1]][v], D[t[2]][v], D[t[3]][v]>>]
Resolving(D) ==
    CHOOSE t \in {1} \X V \X V : LET s == Sig(D, t) IN Cardinality({s[v] : v \in V}) = 60
Automorphisms(E, D) ==
    LET t == TLCEval(Resolving(D))
        s == TLCEval(Sig(D, t))
        at == TLCEval([x \in {s[v] : v \in V} |-> CHOOSE v \in V : s[v] = x])
        T == {u \in V \X V \X V : D[u[1]][u[2]] = D[t[1]][t[2]] /\ D[u[1]][u[3]] = D[t[1]][t[3]] /\ D[u[2]][u[3]] = D[t[2]][t[3]]}
        good == {u \in T : {Sig(D, u)[v] : v \in V} = DOMAIN at}
        \* v of the image triple sits where the site with the same signature was
        P == {LET r == Sig(D, u) IN [v \in V |-> at[r[v]]] : u \in good}
    IN {p \in P : /\ {p[v] : v \in V} = V
                  /\ \A e \in E : {p[v] : v \in e} \in E}

----------------------------------------------------------------------------
Move(c, p) == {<<p[x[1]], x[2]>> : x \in c}
Orbit(c, P) == {Move(c, p) : p \in P}
Equivalent(a, b, P) == Cardinality(a) = Cardinality(b) /\ \E p \in P : Move(a, p) = b
At(c, v) == IF \E x \in c : x[1] = v THEN (CHOOSE x \in c : x[1] = v)[2] ELSE 6
Put(c, v, z) == {x \in c : x[1] # v} \cup (IF z = 6 THEN {} ELSE {<<v, z>>})
PutAll(c, S, z) == {x \in c : x[1] \notin S} \cup (IF z = 6 THEN {} ELSE {<<v, z>> : v \in S})
Holding(c, z) == {v \in V : At(c, v) = z}
\* filtering a stream keeps the first member of every class in it, in order
Kept(str, P) == SelectSeq([i \in 1..Len(str) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ~Equivalent(str[j], str[i], P))
\* k of the sites that do not hold z come to hold it
LevelOf(c, z, k) == LET free == V \ Holding(c, z)
                    IN IF k > Cardinality(free) THEN {} ELSE {PutAll(c, S, z) : S \in FSE!kSubset(k, free)}
\* the same, as a test
InLevel(c, z, k, d) == LET free == V \ Holding(c, z)
                       IN \E S \in {{x[1] : x \in d \ c}} : S \subseteq free /\ Cardinality(S) = k /\ d = PutAll(c, S, z)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE (Choose(n - 1, k - 1) * n) \div k
=============================================================================
