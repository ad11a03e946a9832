----------------------------- MODULE Trace_tile -----------------------------
(* Supercells produced by the code against Superlattice!Tiling. *)
EXTENDS Superlattice, TraceBase

Judge(c) ==
    IF Raised(c) THEN {"raised"}
    ELSE LET cr == [N |-> c.in.cr.N, G |-> c.in.cr.G, sites |-> c.in.cr.sites, nums |-> c.in.cr.nums]
             t == Tiling(cr, c.in.H, c.out.sites, c.out.nums)
         IN Clause("cell_modified", c.out.intact)
            \cup Clause("lattice", c.out.lerr <= 10)
            \cup Clause("atom_count", t.count)
            \cup Clause("num_count", c.out.count = Len(c.out.nums))
            \cup Clause("coinciding_atoms", t.distinct)
            \cup Clause("not_an_atom_of_the_crystal", t.onsite)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
