---------------------------- MODULE Trace_clione ----------------------------
(* What the single-structure commands write, against Superlattice, Isometry and Sphere. *)
EXTENDS Sphere, TraceBase
I == INSTANCE Isometry
S == INSTANCE Superlattice

Rec(r) == [N |-> r.N, G |-> r.G, sites |-> r.sites, nums |-> r.nums]
Diag(s) == <<<<s[1], 0, 0>>, <<0, s[2], 0>>, <<0, 0, s[3]>>>>
LatticeTol == 2000           \* 1e-6 A: files carry a few decimals
StepTol == 3000              \* 1e-6 A: positions are read to four decimals
Printed(x) == x.in.cmd \in {"supcell", "pcell"} /\ x.in.out \in {"", "stdio"}

Supcell(x, c) ==
    LET t == S!Tiling(I!Occupied(c), Diag(x.in.scale), x.out.sites, x.out.nums)
    IN Clause("count", t.count) \cup Clause("two_on_one_spot", t.distinct) \cup Clause("not_the_crystal", t.onsite)
       \cup Clause("lattice", x.out.gerr <= LatticeTol)
Primitive(x, c) ==
    LET o == I!Occupied(c)
    IN Clause("not_the_crystal", x.out.found /\ I!SameCrystal(o, x.out.cert, x.out.nums))
       \cup Clause("not_primitive", Len(x.out.nums) * Cardinality(PureTranslations(c)) = NSites(o))
Cleared(x, c) ==
    LET w == Without(c, InRangeOfAny(c, Centres(c, x.in.around), x.in.k + 1, x.in.ele))
        o == I!Occupied(w)
        m == IF x.in.refined = 1 THEN Cardinality(PureTranslations(w)) ELSE 1
    IN Clause("wrong_atoms", x.out.found /\ I!SameCrystal(o, x.out.cert, x.out.nums))
       \cup Clause("number_of_atoms", Len(x.out.nums) * m = NSites(o))
       \cup Clause("lattice", x.in.refined = 1 \/ x.out.gerr <= LatticeTol)
Perturbed(x, c) ==
    LET mv == x.out.moved
        real == {i \in 1..NSites(c) : c.nums[i] # 0}
    IN Clause("atoms", /\ {mv[i][1] : i \in DOMAIN mv} = real /\ Len(mv) = Cardinality(real)
                       /\ \A i \in DOMAIN mv : x.out.nums[i] = c.nums[mv[i][1]])
       \cup Clause("displacement", \A i \in DOMAIN mv : Abs(mv[i][2] - x.in.r * 10000) <= StepTol)
       \cup Clause("lattice", x.out.gerr <= LatticeTol)

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE LET c == Rec(x.in.cr) IN
         Clause("something_overwritten", x.out.kept)
         \cup Clause("not_in_the_working_directory", x.out.here)
         \cup Clause("files", x.out.nfiles = IF Printed(x) THEN 0 ELSE 1)
         \cup (IF ~Has(x.out, "nums") THEN {"nothing_to_read"}
               ELSE Clause("unreadable", Printed(x) \/ x.out.readable)
                    \cup CASE x.in.cmd = "supcell" -> Supcell(x, c)
                           [] x.in.cmd = "pcell" -> Primitive(x, c)
                           [] x.in.cmd = "atclear" -> Cleared(x, c)
                           [] OTHER -> Perturbed(x, c))

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
