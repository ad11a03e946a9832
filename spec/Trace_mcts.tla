----------------------------- MODULE Trace_mcts -----------------------------
(***************************************************************************)
(* Recorded searches against TreeSearch.  A playout record holds the leaf   *)
(* path at which it was evaluated, the paths on which the policy was asked  *)
(* (and what it answered), the value, and the rollout.                      *)
(***************************************************************************)
EXTENDS TraceBase
T == INSTANCE TreeSearch WITH ACTS <- {}, DEPTH <- 0, PLAYOUTS <- 0, VALUES <- {}, C10 <- 0, MOVES <- 0,
                              tree <- <<>>, done <- 0, moved <- 0
Prefix(q, i) == SubSeq(q, 1, i)

\* the answers of the policy in this playout, by path
Answer(pl, q) == LET i == CHOOSE i \in DOMAIN pl.policy : pl.policy[i].at = q IN pl.policy[i].priors
Asked(pl) == {pl.policy[i].at : i \in DOMAIN pl.policy}

\* descend from depth i of the leaf path; the result is [ok, tree, why]
RECURSIVE Descend(_, _, _, _, _)
Descend(tree, pl, i, L, c10) ==
    LET q == Prefix(pl.leaf, i)
        fresh == tree[q].kids = {}
    IN IF i = L THEN [why |-> "", tree |-> tree, asked |-> {}]
       ELSE IF fresh /\ q \notin Asked(pl) THEN [why |-> "leaf_not_expanded", tree |-> tree, asked |-> {}]
       ELSE LET pr == IF fresh THEN Answer(pl, q) ELSE <<>>
                u == IF fresh /\ Len(pr) > 0 THEN T!Expand(tree, q, pr) ELSE tree
                a == IF fresh THEN {q} ELSE {}
            IN IF u[q].kids = {} THEN                       \* the end of the game
                    [why |-> IF i = Len(pl.leaf) THEN "" ELSE "move_after_the_end", tree |-> u, asked |-> a]
               ELSE IF i = Len(pl.leaf) THEN [why |-> "stopped_early", tree |-> u, asked |-> a]
               ELSE IF ~T!Best(u, q, pl.leaf[i + 1], c10) THEN [why |-> "not_a_best_child", tree |-> u, asked |-> a]
               ELSE LET r == Descend(u, pl, i + 1, L, c10) IN [r EXCEPT !.asked = @ \cup a]

\* the rollout follows the rollout policy's favourite to the end or the limit
RolloutOk(pl, limit) ==
    /\ \A i \in DOMAIN pl.roll :
         LET p == pl.roll[i].priors
             b == pl.roll[i].at
         IN IF p = <<>> THEN i = Len(pl.roll)
            ELSE LET nxt == IF i < Len(pl.roll) THEN pl.roll[i + 1].at ELSE pl.end
                 IN /\ Len(nxt) = Len(b) + 1 /\ Prefix(nxt, Len(b)) = b
                    /\ \E k \in DOMAIN p : p[k][1] = nxt[Len(nxt)] /\ \A m \in DOMAIN p : p[m][2] <= p[k][2]
    /\ (pl.roll # <<>> => pl.roll[1].at = pl.leaf)
    /\ Len(pl.roll) <= limit
    /\ (Len(pl.roll) < limit => pl.roll # <<>> /\ pl.roll[Len(pl.roll)].priors = <<>>)
Z(pl) == IF pl.winner = 0 THEN 0 ELSE IF pl.winner = pl.player THEN 1 ELSE -1
LeafValue(pl, lm4) == (IF lm4 < 4 THEN (4 - lm4) * pl.value ELSE 0) + (IF lm4 > 0 THEN lm4 * 1000 * Z(pl) ELSE 0)

RECURSIVE Playouts(_, _, _, _)
Playouts(tree, pls, n, p) ==
    IF n > Len(pls) THEN [why |-> "", tree |-> tree]
    ELSE LET pl == pls[n]
             d == Descend(tree, pl, 0, p.L, p.c10)
         IN IF d.why # "" THEN [why |-> d.why, tree |-> tree]
            ELSE IF d.asked # Asked(pl) \/ Len(pl.policy) # Cardinality(d.asked) THEN [why |-> "policy_asked_again", tree |-> tree]
            ELSE IF p.lm4 > 0 /\ ~RolloutOk(pl, p.limit) THEN [why |-> "rollout", tree |-> tree]
            ELSE Playouts(T!BackUp(d.tree, pl.leaf, LeafValue(pl, p.lm4)), pls, n + 1, p)

RECURSIVE Follow(_, _, _, _)
Follow(tree, steps, n, p) ==
    IF n > Len(steps) THEN {}
    ELSE LET s == steps[n]
         IN IF s.op = "advance" THEN Follow(T!Advance(tree, s.a), steps, n + 1, p)
            ELSE IF Len(s.playouts) # p.np THEN {"number_of_playouts"}
            ELSE LET r == Playouts(tree, s.playouts, 1, p)
                 IN IF r.why # "" THEN {r.why}
                    ELSE IF ~s.intact THEN {"state_modified"}
                    ELSE IF ~T!MostVisited(r.tree, s.a) THEN {"not_most_visited"}
                    ELSE Follow(r.tree, steps, n + 1, p)
Judge(x) == IF Raised(x) THEN {"raised"} ELSE Follow(T!NewTree, x.out.steps, 1, x.in.par)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
