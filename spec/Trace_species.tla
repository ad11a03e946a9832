--------------------------- MODULE Trace_species ---------------------------
(* The code's periodic table and species against Species. *)
EXTENDS Species, TraceBase
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE LET z == x.in.z o == x.out
         IN Clause("number", o.z = z /\ o.za = z)
            \cup Clause("symbol", \A i \in DOMAIN o.names : o.names[i] = Symbol(z))
            \cup Clause("table", \A i \in DOMAIN o.keys : IsSymbol(o.keys[i]))
            \cup Clause("conversion", \A i \in DOMAIN o.others : o.others[i].z = NumberOf(o.others[i].sym))
            \cup Clause("equality", \A i \in DOMAIN o.others : LET t == o.others[i] e == (NumberOf(t.sym) = z)
                                    IN t.eq = e /\ t.ne = ~e /\ t.eqr = e /\ t.ner = ~e)
            \cup Clause("equals_a_non_species", ~o.foreign)
            \cup Clause("site", (\A i \in DOMAIN o.sites : o.sites[i] = z) /\ o.site_eq /\ ~o.site_moved_eq /\ ~o.site_other_eq)
            \cup Clause("spec_table", SpeciesOk)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
