----------------------------- MODULE Trace_edit -----------------------------
(* Histories of edits performed by the code against CellEdit. *)
EXTENDS TraceBase
E == INSTANCE CellEdit WITH SITES <- {}, IDX <- {}, MAXLEN <- 0, MAXCELLS <- 0, st <- <<>>, last <- <<>>

Abs1(v) == IF v < 0 THEN -v ELSE v
\* the state after a step, or an empty sequence when no outcome of the specification fits
StepTo(st, op, obs) ==
    IF op.op \in {"to_fixed", "through_fixed"}
    THEN \* conversion to a fixed cell and back: the same atoms, in whatever order
         LET s == st[op.h].sites
             t == [st EXCEPT ![op.h].sites = obs.cells[op.h].sites]
         IN IF ~obs.err /\ E!IsPermutationOf(obs.fixed, s)
               /\ (IF op.op = "to_fixed" THEN obs.cells = st
                   ELSE E!IsPermutationOf(obs.cells[op.h].sites, s) /\ obs.cells = t)
            THEN obs.cells ELSE <<>>
    ELSE LET fit == {r \in E!Outcomes(st, op) : /\ r.err = obs.err /\ r.st = obs.cells
                                                /\ (~r.err => r.ret = obs.ret)}
         IN IF fit = {} THEN <<>> ELSE obs.cells

RECURSIVE Follow(_, _, _)
Follow(st, steps, n) ==
    IF n > Len(steps) THEN {}
    ELSE LET t == StepTo(st, steps[n].op, steps[n].obs)
         IN IF t = <<>> THEN {"step_" \o steps[n].op.op}
            ELSE IF ~steps[n].obs.views THEN {"views_disagree"}
            ELSE IF ~steps[n].obs.apart THEN {"copy_shares"}
            ELSE IF ~steps[n].obs.fixed_intact THEN {"fixed_cell_changed"}
            ELSE Follow(t, steps, n + 1)

Displaced(x) ==
    Clause("perturb_distance", \A i \in DOMAIN x.out.moved : Abs1(x.out.moved[i] - x.in.dist) <= 2)
    \cup Clause("perturb_count", Len(x.out.moved) = Len(x.in.cells[1].sites) /\ x.out.same_species)
    \cup Clause("perturb_copy", x.out.copy_intact)
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE IF x.in.what = "perturb" THEN Displaced(x)
    ELSE IF x.out.start # x.in.cells THEN {"construction"}
    ELSE Follow(x.in.cells, x.out.steps, 1)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
