----------------------------- MODULE Trace_std -----------------------------
(* Standardised cells produced by the code against Isometry. *)
EXTENDS Isometry, TraceBase

Same(c, r) == r.found /\ r.count = r.n /\ SameCrystal(c, r.cert, r.nums)

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE LET c == [N |-> x.in.cr.N, G |-> x.in.cr.G, sites |-> x.in.cr.sites, nums |-> x.in.cr.nums]
             n == NSites(c)
             m == n \div Cardinality(PureTranslations(c))     \* atoms of a primitive cell
         IN Clause("cell_modified", x.out.intact)
            \cup Clause("is_primitive", x.out.prim = IsPrimitive(c))
            \cup Clause("conventional_not_same_crystal", Same(c, x.out.conv))
            \cup Clause("conventional_size", x.out.conv.n \in {m, 2 * m, 3 * m, 4 * m})
            \cup Clause("primitive_not_same_crystal", Same(c, x.out.pcell))
            \cup Clause("primitive_not_minimal", x.out.pcell.n = m /\ x.out.pcell.prim)
            \cup Clause("shaped_not_same_crystal", Same(c, x.out.shaped))
            \cup Clause("shaped_size", x.out.shaped.n = n)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
