---------------------------- MODULE Trace_superl ----------------------------
(* Superlattice lists produced by the code against Superlattice. *)
EXTENDS Superlattice, TraceBase

Judge(c) ==
    IF Raised(c) THEN {"raised"}
    ELSE LET n == c.in.n
             full == IF c.in.flat THEN HNFs2D(n) ELSE HNFs(n)
             P == PointGroup([N |-> c.in.cr.N, G |-> c.in.cr.G, sites |-> c.in.cr.sites, nums |-> c.in.cr.nums])
             dups == c.out.dups
             red == c.out.red
             Canon(h) == CHOOSE f \in full : SameLattice(f, h)
             Known(h) == \E f \in full : SameLattice(f, h)
         IN Clause("cell_modified", c.out.intact)
            \cup Clause("wrong_index", AllOfIndex(dups, n) /\ AllOfIndex(red, n))
            \cup (IF \E i \in DOMAIN dups : ~Known(dups[i]) THEN {"not_a_superlattice"}
                  ELSE Clause("dups_incomplete", {Canon(dups[i]) : i \in DOMAIN dups} = full)
                       \cup Clause("dups_repeated", Len(dups) = Cardinality(full)))
            \cup Clause("reduced_unknown", \A i \in DOMAIN red : Known(red[i]))
            \cup Clause("reduced_redundant", PairwiseUnrelated(red, P))
            \cup Clause("reduced_incomplete", EveryRepresented(red, full, P))
            \cup Clause("equality", \A k \in DOMAIN c.out.pairs :
                    LET q == c.out.pairs[k] e == RelatedLattices(q[1], q[2], P)
                    IN q[3] = e /\ q[4] = e)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
