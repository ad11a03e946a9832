----------------------------- MODULE Trace_occ -----------------------------
(* Executions of the substitution enumerators against Occupation. *)
EXTENDS Occupation, TraceBase

Mother(c) == [N |-> c.in.cr.N, G |-> c.in.cr.G, sites |-> c.out.mother.sites, nums |-> c.out.mother.nums]
\* the implementation may list the atoms in any order and in any periodic image
SameAtoms(a, b) ==
    {<<Wrap(a.sites[i], a.N), a.nums[i]>> : i \in 1..Len(a.sites)} =
    {<<Wrap(b.sites[i], b.N), b.nums[i]>> : i \in 1..Len(b.sites)}
    /\ Len(a.sites) = Len(b.sites)

AllowedSites(m, op, wyck) ==
    CASE op.mode \in {"any", "dup", "tri"} -> 1..NSites(m)
      [] op.mode = "wy" -> {i \in 1..NSites(m) : wyck[i] = wyck[op.w + 1]}
      [] OTHER -> SitesOf(m.nums, op.ele)
Candidates(m, op, wyck) ==
    LET A == AllowedSites(m, op, wyck)
    IN IF op.mode \in {"tri", "tri_ele"}
       THEN Substituted2(m.nums, A, op.n, op.z, op.n2, op.z2)
       ELSE Substituted(m.nums, A, op.n, op.z)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k

Judge(c) ==
    IF Raised(c) THEN {"raised"}
    ELSE LET m == Mother(c)
             op == c.in.op
             out == c.out.cells
             P == SymPerms(m)
             cand == Candidates(m, op, c.out.wyck)
             A == AllowedSites(m, op, c.out.wyck)
             dup == op.mode \in {"dup", "dup_ele"}
         IN IF ~SameAtoms(m, c.in.cr) THEN {"mother_differs"}
            ELSE Clause("mother_modified", c.out.intact)
            \cup Clause("geometry_changed", c.out.geom)
            \cup (IF ~Permitted(out, cand) THEN {"not_permitted"}
                  ELSE IF dup THEN Clause("dup_incomplete", Range(out) = cand)
                                   \cup Clause("dup_count", Len(out) = Binom(Cardinality(A), op.n))
                  ELSE Clause("duplicate", Inequivalent(out, P))
                       \cup Clause("missing", Complete(out, cand, P)))

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
