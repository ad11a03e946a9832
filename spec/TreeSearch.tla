----------------------------- MODULE TreeSearch -----------------------------
(***************************************************************************)
(* Monte Carlo tree search.  The tree is a function from paths (sequences   *)
(* of actions from the current root) to statistics                          *)
(*   [n: visits, sum: sum of backed-up leaf values, np: the parent's visits *)
(*    when this node was last visited, p: prior, kids: set of actions]      *)
(* Leaf values are in units of 1/4000, priors in units of 1/1000, the       *)
(* exploration constant in tenths, scores in units of 1e-5.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Root2(_, _, _)
Root2(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root2(n, m, hi) ELSE Root2(n, lo, m)
\* 1000 times the square root
MilliRoot(n) == IF n = 0 THEN 0 ELSE Root2(n * 1000000, 0, 46341)

Fresh(p) == [n |-> 0, sum |-> 0, np |-> 0, p |-> p, kids |-> {}]
NewTree == (<<>> :> Fresh(1000))

Score(node, c10) ==
    IF node.n = 0 THEN node.p * 100
    ELSE (node.sum * 25) \div node.n
         + (c10 * node.p * MilliRoot(node.np)) \div (100 * (1 + node.n))
Eps == 12
Best(tree, path, a, c10) ==
    /\ a \in tree[path].kids
    /\ \A b \in tree[path].kids :
         Score(tree[Append(path, b)], c10) <= Score(tree[Append(path, a)], c10) + Eps

\* priors: a sequence of <<action, prior>>
Expand(tree, path, priors) ==
    LET acts == {priors[i][1] : i \in DOMAIN priors}
        P(a) == priors[CHOOSE i \in DOMAIN priors : priors[i][1] = a /\ \A j \in DOMAIN priors : priors[j][1] = a => i <= j][2]
        new == [q \in {Append(path, a) : a \in acts} |-> Fresh(P(q[Len(q)]))]
    IN TLCEval(new @@ [tree EXCEPT ![path].kids = acts])

Prefix(q, i) == SubSeq(q, 1, i)
BackUp(tree, leaf, v) ==
    LET on == {Prefix(leaf, i) : i \in 0..Len(leaf)}
    IN TLCEval([q \in DOMAIN tree |->
          IF q \in on
          THEN [tree[q] EXCEPT !.n = @ + 1, !.sum = @ + v,
                               !.np = IF q = <<>> THEN 0 ELSE tree[Prefix(q, Len(q) - 1)].n + 1]
          ELSE tree[q]])

MostVisited(tree, a) == a \in tree[<<>>].kids /\ \A b \in tree[<<>>].kids : tree[<<b>>].n <= tree[<<a>>].n

\* advancing the root
Advance(tree, a) ==
    IF a \in tree[<<>>].kids
    THEN LET keep == {q \in DOMAIN tree : Len(q) > 0 /\ q[1] = a}
         IN TLCEval([q \in {SubSeq(r, 2, Len(r)) : r \in keep} |-> tree[<<a>> \o q]])
    ELSE NewTree

--------------------------- (* the machine, small games *) ------------------
CONSTANTS ACTS, DEPTH, PLAYOUTS, VALUES, C10, MOVES
VARIABLES tree, done, moved
vars == <<tree, done, moved>>
\* a game: at most DEPTH moves, all actions always possible with fixed priors
Priors == LET s == CHOOSE s \in [1..Cardinality(ACTS) -> ACTS] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
          IN [i \in DOMAIN s |-> <<s[i], 300 + 100 * i>>]
RECURSIVE Walks(_, _, _)
\* all (tree, leaf) pairs reachable by a playout of depth d from path q
Walks(t, q, d) ==
    IF d = 0 THEN {<<t, q>>}
    ELSE LET u == IF t[q].kids = {} THEN Expand(t, q, Priors) ELSE t
         IN UNION {Walks(u, Append(q, a), d - 1) : a \in {a \in u[q].kids : Best(u, q, a, C10)}}
Init == tree = NewTree /\ done = 0 /\ moved = 0
Playout == /\ done < PLAYOUTS
           /\ \E w \in Walks(tree, <<>>, DEPTH), v \in VALUES : tree' = BackUp(w[1], w[2], v)
           /\ done' = done + 1 /\ UNCHANGED moved
Move == /\ moved < MOVES /\ done > 0
        /\ \E a \in ACTS : tree' = Advance(tree, a)
        /\ moved' = moved + 1 /\ done' = 0
Next == Playout \/ Move
Spec == Init /\ [][Next]_vars
ChildVisits(q) == LET F[S \in SUBSET ACTS] == IF S = {} THEN 0
                                              ELSE LET a == CHOOSE a \in S : TRUE IN tree[Append(q, a)].n + F[S \ {a}]
                  IN F[tree[q].kids]
\* visits flow down the tree; means stay within the range of the leaf values
Flow == \A q \in DOMAIN tree : ChildVisits(q) <= tree[q].n
                               /\ (Len(q) < DEPTH /\ moved = 0 => ChildVisits(q) = tree[q].n)
Bounded == \A q \in DOMAIN tree : \E lo, hi \in VALUES : tree[q].n * lo <= tree[q].sum /\ tree[q].sum <= tree[q].n * hi
\* every node's parent is there and knows it
Shape == \A q \in DOMAIN tree : Len(q) > 0 => /\ Prefix(q, Len(q) - 1) \in DOMAIN tree
                                              /\ q[Len(q)] \in tree[Prefix(q, Len(q) - 1)].kids
\* a parent was visited at least as often as when its child was last updated
Stamps == \A q \in DOMAIN tree : Len(q) > 0 => tree[q].np <= tree[Prefix(q, Len(q) - 1)].n /\ tree[q].n <= tree[q].np
=============================================================================
