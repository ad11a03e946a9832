---------------------------- MODULE Trace_canon ----------------------------
(* What cells say about themselves, against Listing. *)
EXTENDS Listing, TraceBase

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE CASE x.in.what = "listings" ->
                LET v == x.out.views N == x.in.cr.N
                IN Clause("places", \A k \in DOMAIN v : Holds(v[k], x.in.cr))
                   \cup Clause("coherent", \A k \in DOMAIN v : Coherent(v[k]))
                   \cup Clause("same_listing", \A k \in DOMAIN v : SameListing(v[1], v[k], N))
           [] x.in.what = "ids" ->
                Clause("ids", IdsFaithful(x.out.ids, x.out.nums))
                \* one geometry, so every species sequence is reordered in the same way
                \cup Clause("same_order", \A j, k \in DOMAIN x.out.nums :
                                (x.out.nums[j] = x.out.nums[k]) <=> (x.in.seqs[j] = x.in.seqs[k]))
           [] OTHER ->
                LET C(v, k) == [N |-> x.in.cr.N, G |-> x.in.cr.G, sites |-> v.sites, nums |-> x.in.seqs[k]]
                    \* the sites never move; only what sits on them
                    Still(v) == {Wrap(v.sites[i], x.in.cr.N) : i \in DOMAIN v.sites} = {Wrap(x.in.cr.sites[i], x.in.cr.N) : i \in DOMAIN x.in.cr.sites}
                IN UNION {LET v == x.out.views[k]
                          IN Clause("sites_moved", Still(v) /\ v.sites = x.out.views[1].sites)
                             \cup Clause("assigned", v.nums = x.in.seqs[k])
                             \cup Clause("coherent", Coherent(v))
                             \cup Clause("id", v.id = v.fresh)
                             \cup Clause("wyckoffs", v.wyck = v.fwyck)
                             \cup (IF v.nums = x.in.seqs[k] /\ Still(v)
                                   THEN LET S == SymPerms(C(v, k))
                                            got == {v.perms[i] : i \in DOMAIN v.perms}
                                        IN Clause("symmetry", got = S \/ got = {Inverse(p) : p \in S})
                                           \cup Clause("primitive", v.prim = IsPrimitive(C(v, k)))
                                   ELSE {})
                          : k \in DOMAIN x.out.views}

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
