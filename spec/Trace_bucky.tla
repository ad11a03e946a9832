---------------------------- MODULE Trace_bucky ----------------------------
(* The buckyball's table, streams and levels against Bucky. *)
EXTENDS Bucky, TraceBase

Set(q) == {q[i] : i \in DOMAIN q}
\* The bonds are the same in every case of a trace; they are taken from the first that has them, and what follows
\* from them is computed once, into the variable geo.
VARIABLES l, geo
Geometry ==
    LET E == IF \A i \in 1..NCases : Raised(Cases[i]) THEN {}
             ELSE {Set(e) : e \in Set(Cases[CHOOSE i \in 1..NCases : ~Raised(Cases[i])].out.edges)}
        nb == TLCEval(Neighbours(E))
        dist == TLCEval(Distances(nb))
        ok == E # {} /\ IsBuckyball(E, nb, dist)
    IN [edges |-> E, proper |-> ok, aut |-> IF ok THEN Automorphisms(E, dist) ELSE {[v \in V |-> v]}]
Edges == geo.edges
Aut == geo.aut
Proper == geo.proper

Col(q) == Set(q)
Cols(L) == [i \in DOMAIN L |-> Col(L[i])]
\* how many of each of the species 5, 7, 8, 9 a coloring holds
Tally(c) == LET n(z) == Cardinality({i \in DOMAIN c : c[i] = z}) IN <<n(5), n(7), n(8), n(9)>>

JudgeLevel(x, k, lv) ==
    LET out == TLCEval(Cols(lv.cells))
        init == TLCEval(Col(x.in.init))
        z == x.in.sp
    IN (IF k = 0 THEN Clause("level_start", lv.cells = <<>> \/ out = <<init>>)
        ELSE IF ~(\A i \in DOMAIN out : InLevel(init, z, k, out[i])) THEN {"level_not_permitted"}
        ELSE LET orb == TLCEval([i \in DOMAIN out |-> Orbit(out[i], Aut)])
                 \* (TLC's UNION takes quadratic time)
                 cov == TLCEval({Move(out[i], p) : i \in DOMAIN out, p \in Aut})
                 sum == FSE!FoldSet(LAMBDA i, acc : acc + Cardinality(orb[i]), 0, DOMAIN out)
             IN Clause("level_duplicate", Cardinality(cov) = sum)
                \cup Clause("level_missing",
                     \/ ~lv.drained
                     \* from the bare cage the orbits of the level stay within it, so counting decides
                     \/ IF init = {} THEN Cardinality(cov) = Choose(60, k) ELSE LevelOf(init, z, k) \subseteq cov))
       \cup Clause("level_empty", k > 0 \/ ~lv.drained \/ Len(out) = 1)

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE Clause("bonds_differ", {Set(e) : e \in Set(x.out.edges)} = Edges)
         \cup Clause("not_a_buckyball", Proper)
         \cup (CASE x.in.what = "table" ->
                  LET got == {p : p \in Set(x.out.perms)}
                  IN Clause("automorphisms_of_the_bonds", Cardinality(Aut) = 120)
                     \cup Clause("table_rows", Len(x.out.perms) = 120 /\ Cardinality(got) = 120)
                     \cup Clause("table", got = Aut)
                     \cup Clause("table_changed_by_use", x.out.again)
              [] x.in.what = "stream" ->
                  Clause("stream_filter", x.out.kept = Kept(Cols(x.in.stream), Aut))
                  \cup Clause("stream_modified", x.out.intact)
              [] x.in.what = "mass" ->
                  Clause("mass_input", Cardinality({Tally(x.out.seen[i]) : i \in DOMAIN x.out.seen}) = Len(x.out.seen))
                  \cup Clause("mass_lost", x.out.count = Len(x.out.seen))
              [] x.in.what = "levels" ->
                  LET n0 == Cardinality(Holding(Col(x.in.init), x.in.sp))
                      want == IF x.in.nmax > n0 THEN x.in.nmax - n0 ELSE 0
                  IN Clause("level_count", x.out.nlevels = want + 1)
                     \cup UNION {JudgeLevel(x, k - 1, x.out.levels[k]) : k \in DOMAIN x.out.levels}
                     \cup Clause("speckle_number", x.out.n0 = n0)
              [] x.in.what = "all" ->
                  Clause("placements", {Col(q) : q \in Set(x.out.cells)} = LevelOf({}, x.in.sp, x.in.n)
                                       /\ Len(x.out.cells) = Cardinality(LevelOf({}, x.in.sp, x.in.n)))
              [] OTHER ->
                  LET str == Cols(x.in.stream)
                      want == UNION {LevelOf(str[i], x.in.sp, 1) : i \in DOMAIN str}
                      got == Cols(x.out.cells)
                      one == Cols(x.out.one)
                  IN Clause("one_more", {got[i] : i \in DOMAIN got} = want)
                     \cup Clause("one_more_repeated", Cardinality(want) = Len(got))
                     \cup Clause("one_more_list", {one[i] : i \in DOMAIN one} = LevelOf(str[1], x.in.sp, 1)
                                                  /\ Len(one) = Cardinality(LevelOf(str[1], x.in.sp, 1)))
                     \cup Clause("stream_modified", x.out.intact))

Init == l = 1 /\ geo = Geometry
Next == /\ UNCHANGED geo
        /\ \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
           \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
