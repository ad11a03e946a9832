---------------------------- MODULE Trace_growth ----------------------------
(* Growth runs and neighbour queries of the code against Growth. *)
EXTENDS TraceBase
W == INSTANCE Growth WITH VERTS <- {}, GOAL <- 0, nb <- <<>>, path <- <<>>, frontier <- {}
Range(f) == {f[i] : i \in DOMAIN f}
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE CASE x.in.what = "near" ->
                 Clause("neighbours", Range(x.out.near) = W!Within(x.in.G, x.in.shape, x.in.p, x.in.k))
                 \cup Clause("neighbour_repeated", Cardinality(Range(x.out.near)) = Len(x.out.near))
           [] x.in.what = "grid" ->
                 LET Nb(v, w) == W!IsNear(x.in.G, v, w, x.in.k)
                 IN Clause("start", x.out.start = x.in.start)
                    \cup Clause("neighbours", Range(x.out.near) = W!Within(x.in.G, x.in.shape, x.in.start, x.in.k))
                    \cup UNION {Clause("growth", /\ Range(x.out.paths[i]) \subseteq W!Sites(x.in.shape)
                                                 /\ W!Grown(x.out.paths[i], x.in.start, x.in.goal, Nb)) : i \in DOMAIN x.out.paths}
           [] x.in.what = "graph" ->
                 LET Nb(v, w) == w \in Range(x.in.nb[v])
                 IN UNION {Clause("growth", /\ Range(x.out.paths[i]) \subseteq DOMAIN x.in.nb
                                            /\ W!Grown(x.out.paths[i], x.in.start, x.in.goal, Nb)) : i \in DOMAIN x.out.paths}

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
