----------------------------- MODULE Trace_sym -----------------------------
(* Symmetry permutations, operations and equivalence against Crystal. *)
EXTENDS Occupation, TraceBase

Mother(c) == [N |-> c.in.cr.N, G |-> c.in.cr.G, sites |-> c.out.mother.sites, nums |-> c.out.mother.nums]
SameAtoms(a, b) ==
    {<<Wrap(a.sites[i], a.N), a.nums[i]>> : i \in 1..Len(a.sites)} =
    {<<Wrap(b.sites[i], b.N), b.nums[i]>> : i \in 1..Len(b.sites)}
    /\ Len(a.sites) = Len(b.sites)

Judge(c) ==
    IF Raised(c) THEN {"raised"}
    ELSE LET m == Mother(c)
             n == NSites(m)
             ops == SymOps(m)
             P == SymPerms(m)
             got == Range(c.out.perms)
         IN IF ~SameAtoms(m, c.in.cr) THEN {"mother_differs"}
            ELSE Clause("mother_modified", c.out.intact)
            \cup Clause("perm_spurious", got \subseteq P)
            \cup Clause("perm_missing", P \subseteq got)
            \cup Clause("perm_count", Len(c.out.perms) = Cardinality(ops))
            \cup Clause("perm_cell_function", Range(c.out.perms2) = P)
            \cup Clause("ops", {<<o[1], Wrap(o[2], m.N)>> : o \in Range(c.out.ops)} = ops)
            \cup Clause("ops_count", Len(c.out.ops) = Cardinality(ops))
            \cup Clause("not_a_group", Cardinality(P) > 48 \/ IsGroup(got, n))
            \cup Clause("wyckoff_split", \A p \in P : \A i \in 1..n : c.out.wyck[i] = c.out.wyck[p[i]])
            \cup Clause("equivalence", \A k \in DOMAIN c.out.pairs :
                    LET q == c.out.pairs[k] e == Equivalent(q[1], q[2], P)
                    IN q[3] = e /\ q[4] = e)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
