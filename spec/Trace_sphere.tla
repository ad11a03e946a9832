---------------------------- MODULE Trace_sphere ----------------------------
(* Sphere queries and clarifiers of the code against Sphere. *)
EXTENDS Sphere, TraceBase

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE LET c == [N |-> x.in.cr.N, G |-> x.in.cr.G, sites |-> x.in.cr.sites, nums |-> x.in.cr.nums]
             r2 == IF x.in.exact = 1 THEN x.in.k ELSE x.in.k + 1      \* strictly below sqrt(k), or below sqrt(k + 1/2)
             gone == CASE x.in.what = "query" -> {}
                       [] x.in.what = "remove" -> InRangeOfAny(c, Range(x.in.centres), r2, x.in.ele)
                       [] OTHER -> InRangeOfAny(c, Centres(c, x.in.around), r2, x.in.ele)
             w == Without(c, gone)
         IN Clause("query", x.in.what = "query" =>
                      /\ Len(x.out.keys) = Len(x.in.centres)
                      /\ \A i \in DOMAIN x.in.centres : Range(x.out.keys[i]) = InRange(c, x.in.centres[i], r2, x.in.ele))
            \cup Clause("remaining_atoms", x.out.sites = w.sites /\ x.out.nums = w.nums)
            \cup Clause("lattice_changed", x.out.latt)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
