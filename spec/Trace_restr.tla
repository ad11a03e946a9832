---------------------------- MODULE Trace_restr ----------------------------
(* Answers of the restrictions against exact periodic distances and classes. *)
EXTENDS SpaceGroup, TraceBase

Rec(r) == [N |-> r.N, G |-> r.G, sites |-> r.sites, nums |-> r.nums]
\* the threshold is sqrt(k + 1/2)/N, or exactly sqrt(k)/N when k is a square and the case is an exact one
DistanceHolds(x) ==
    LET c == Rec(x.in.cr) IN AllFurther(c, x.in.z, x.in.k)
SpaceGroupVerdict(x) ==
    LET l == Range(x.in.list)
        K == IF x.in.name # "" THEN {Known[x.in.name]} ELSE ClassNumbers(Rec(x.in.prim))
    IN IF K \subseteq l THEN {TRUE} ELSE IF K \cap l = {} THEN {FALSE} ELSE BOOLEAN
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE Clause("cell_modified", x.out.intact)
         \cup Clause("answer_changes", x.out.again = x.out.res)
         \cup (IF x.in.what = "dist" THEN Clause("distance_verdict", x.out.res = DistanceHolds(x))
               ELSE Clause("space_group_verdict", x.out.res \in SpaceGroupVerdict(x))
                    \cup Clause("inconsistent_table", x.in.name # "" => Known[x.in.name] \in ClassNumbers(Rec(x.in.prim))))

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
