------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* Random growth on a graph: a path of sites and a frontier of candidates.  *)
(* Any frontier site may be taken next.  nb[v] is the set of neighbours.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}

\* what every finished run must look like
Distinct(path) == Cardinality(Range(path)) = Len(path)
Connected(path, Near(_, _)) == \A i \in 2..Len(path) : \E j \in 1..(i - 1) : Near(path[j], path[i])
Grown(path, start, goal, Near(_, _)) ==
    /\ Len(path) = goal /\ path[1] = start
    /\ Distinct(path) /\ Connected(path, Near)

\* grid sites within the root of k of p under the Gram matrix G (the site itself left out)
Q2(G, u) == LET n == Len(u) IN
    LET Row(i) == LET F[j \in 0..n] == IF j = 0 THEN 0 ELSE F[j - 1] + u[i] * G[i][j] * u[j] IN F[n]
        S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + Row(i)
    IN S[n]
Diff(p, q) == [i \in DOMAIN p |-> p[i] - q[i]]
Sites(shape) == IF Len(shape) = 2
                THEN {<<x, y>> : x \in 0..shape[1]-1, y \in 0..shape[2]-1}
                ELSE {<<x, y, z>> : x \in 0..shape[1]-1, y \in 0..shape[2]-1, z \in 0..shape[3]-1}
IsNear(G, p, q, k) == q # p /\ Q2(G, Diff(p, q)) <= k
Within(G, shape, p, k) == {q \in Sites(shape) : IsNear(G, p, q, k)}

-----------------------------------------------------------------------------
(* the algorithm, on every connected graph over VERTS *)
CONSTANTS VERTS, GOAL
VARIABLES nb, path, frontier
vars == <<nb, path, frontier>>
Graphs == {g \in [VERTS -> SUBSET VERTS] : \A v \in VERTS : v \notin g[v] /\ \A w \in g[v] : v \in g[w]}
RECURSIVE Reach(_, _)
Reach(g, S) == LET T == S \cup UNION {g[v] : v \in S} IN IF T = S THEN S ELSE Reach(g, T)
Init == /\ nb \in {g \in Graphs : Reach(g, {1}) = VERTS}
        /\ path = <<1>> /\ frontier = nb[1]
Grow == /\ Len(path) < GOAL
        /\ \E v \in frontier :
             /\ path' = Append(path, v)
             /\ frontier' = (frontier \ {v}) \cup {w \in nb[v] : w \notin Range(path) \cup {v}}
        /\ UNCHANGED nb
Next == Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Grow)
GrowsRight == Distinct(path) /\ Connected(path, LAMBDA v, w : w \in nb[v]) /\ path[1] = 1
\* the frontier is exactly the boundary of the path, so growth never gets stuck before the goal
Boundary == frontier = UNION {nb[v] : v \in Range(path)} \ Range(path)
NeverStuck == Len(path) < GOAL => frontier # {}
Finishes == <>(Len(path) = GOAL)
=============================================================================
