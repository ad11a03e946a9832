---------------------------- MODULE Trace_cstru ----------------------------
(* Grid enumerations, placements, equality and separation against GridStru. *)
EXTENDS GridStru, TraceBase

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k
Cand(x) == LET sea == Sea(x.in.size, x.in.sea)
           IN Substituted(sea, 1..Points(x.in.size), x.in.n, x.in.sp)
Atoms(N, sites, nums) == {<<Wrap(sites[i], N), nums[i]>> : i \in DOMAIN sites}
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE CASE x.in.what = "enum" ->
            LET P == SymPerms(GridCrystal(x.in.G, x.in.size, Sea(x.in.size, x.in.sea)))
                cand == Cand(x)
            IN IF ~Permitted(x.out.cells, cand) THEN {"not_permitted"}
               ELSE Clause("duplicate", Inequivalent(x.out.cells, P))
                    \cup Clause("missing", Complete(x.out.cells, cand, P))
         [] x.in.what = "dup" ->
            Clause("placements", Range(x.out.cells) = Cand(x))
            \cup Clause("placement_count", Len(x.out.cells) = Binom(Points(x.in.size), x.in.n))
         [] x.in.what = "cell" ->
            LET c == GridCrystal(Id3, x.in.size, x.in.arr)
                s == x.in.size
            IN Clause("named_lattice", x.out.named = x.in.G)
               \cup Clause("cell_lattice", x.out.lerr <= 2 /\ x.out.lerr2 <= 2)
               \cup Clause("cell_atoms", /\ Len(x.out.nums) = Points(s)
                                         /\ Atoms(c.N, x.out.sites, x.out.nums) = Atoms(c.N, c.sites, c.nums)
                                         /\ x.out.sites2 = x.out.sites /\ x.out.nums2 = x.out.nums)
               \cup Clause("gcell", /\ x.out.glerr <= 2 /\ Len(x.out.gnums) = Points(s)
                                    /\ Atoms(c.N, x.out.gsites, x.out.gnums) = Atoms(c.N, c.sites, c.nums))
               \cup Clause("midpoint", x.out.mid = <<s[1] \div 2, s[2] \div 2, s[3] \div 2>>)
         [] x.in.what = "equal" ->
            Clause("equality_verdict", x.out.res = EqualUnder(x.in.size, x.in.ops, x.in.A, x.in.B))
            \cup Clause("plain_equality", x.out.same = (x.in.A = x.in.B) /\ ~x.out.none)
            \cup Clause("lattice_equality", ~x.out.alias)
         [] OTHER ->
            Clause("separation_verdict", x.out.res = Separated(x.in.G, x.in.size, x.in.arr, x.in.sp))
            \cup Clause("structure_changed", x.out.kept)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
