---------------------------- MODULE Trace_board ----------------------------
(* Histories of site grids against Board. *)
EXTENDS TraceBase
B == INSTANCE Board WITH SHAPE <- <<>>, KINDS <- {}, MAXB <- 0, boards <- <<>>, last <- <<>>
RECURSIVE Follow(_, _, _)
Follow(st, steps, n) ==
    IF n > Len(steps) THEN {}
    ELSE LET o == steps[n].obs
             r == B!Outcome(st, steps[n].op)
         IN IF r.st # o.boards \/ r.ret # o.ret THEN {"step_" \o steps[n].op.op}
            ELSE IF ~o.views THEN {"views_disagree"}
            ELSE Follow(r.st, steps, n + 1)
Placed(x) ==
    LET want == B!Placements(x.in.shape, x.in.y, x.in.z, x.in.k)
        got == {x.out.all[i] : i \in DOMAIN x.out.all}
    IN Clause("placements", got = want)
       \cup Clause("placement_count", x.in.y # x.in.z => Len(x.out.all) = Cardinality(want))
       \cup Clause("shapes", \A i \in DOMAIN x.out.shapes : x.out.shapes[i] = x.in.shape)
\* many random fillings: each of two species, and any two positions are seen with every combination
Filled(x) ==
    LET n == Len(x.out.all[1]) IN
    Clause("fill", /\ \A i \in DOMAIN x.out.shapes : x.out.shapes[i] = x.in.shape
                   /\ \A i \in DOMAIN x.out.all : \A p \in 1..Len(x.out.all[i]) : x.out.all[i][p] \in {x.in.y, x.in.z})
    \cup Clause("fill_covers", \A p \in 1..n : \A q \in 1..n : p < q =>
                    {<<x.out.all[i][p], x.out.all[i][q]>> : i \in DOMAIN x.out.all} = {x.in.y, x.in.z} \X {x.in.y, x.in.z})
    \cup Clause("fill_covers", \A p \in 1..n : {x.out.all[i][p] : i \in DOMAIN x.out.all} = {x.in.y, x.in.z})
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE CASE x.in.what = "history" -> Follow(x.in.boards, x.out.steps, 1)
           [] x.in.what = "place" -> Placed(x)
           [] x.in.what = "fill" -> Filled(x)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
