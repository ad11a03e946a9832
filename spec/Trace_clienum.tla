---------------------------- MODULE Trace_clienum ----------------------------
(* What the enumeration commands leave in a directory, against Job. *)
EXTENDS Job, TraceBase
S == INSTANCE Superlattice

Rec(r) == [N |-> r.N, G |-> r.G, sites |-> r.sites, nums |-> r.nums]
Count(c, e) == Cardinality(SitesOf(c.nums, e))
Requests(x, c) ==
    LET op == x.in.op A == Count(c, op.ele) IN
    CASE x.in.cmd = "ocumaker" -> LevelsAsked(c, op.ele, op.sp, IF op.n < 0 THEN A - 1 ELSE op.n)
      [] x.in.cmd = "ocubiter" -> {<<IF op.n < 0 THEN A \div 2 + 1 ELSE op.n, 0>>}
      [] x.in.cmd = "ocutenter" -> {<<op.n, op.n2>>}
      [] OTHER -> Ternary(A)

Enumeration(x) ==
    LET c == Rec(x.in.cr)
        op == x.in.op
        f == x.out.files
        P == SymPerms(c)
        cand == TLCEval(Asked(c, op.ele, Requests(x, c), op.sp, op.sp2))
        claims == [i \in DOMAIN f |-> f[i].claim]
        Ok(col) == Qualifies(c, col, x.in.trs, x.in.mpr = 1)
    IN IF \E i \in DOMAIN f : ~f[i].found THEN {"file_not_asked_for"}
       ELSE IF ~Permitted(claims, cand) THEN {"file_not_permitted"}
       ELSE Clause("file_not_that_structure", \A i \in DOMAIN f : Holds(c, f[i], x.in.refined = 1))
            \cup Clause("file_does_not_qualify", \A i \in DOMAIN f : Ok(claims[i]))
            \cup Clause("written_twice", Inequivalent(claims, P))
            \cup Clause("not_written", \A col \in cand \ Covered(claims, P) : ~Ok(col))

Superlattices(x) ==
    LET c == Rec(x.in.cr)
        f == x.out.files
        n == x.in.v
        P == PointGroup(c)
        full == IF x.in.flat THEN HNFs2D(n) ELSE HNFs(n)
        Whole(T) == \A i, j \in Ax : T[i][j] % c.N = 0
        H == [i \in DOMAIN f |-> [a \in Ax |-> [b \in Ax |-> f[i].cert.T[a][b] \div c.N]]]
    IN IF \E i \in DOMAIN f : ~f[i].found \/ ~Whole(f[i].cert.T) THEN {"not_a_superlattice"}
       ELSE Clause("file_not_that_structure", \A i \in DOMAIN f : I!SameCrystal(c, f[i].cert, f[i].nums))
            \cup Clause("wrong_index", S!AllOfIndex(H, n))
            \cup Clause("out_of_plane", \A i \in DOMAIN H : \E h \in full : RelatedLattices(H[i], h, P))
            \cup Clause("written_twice", S!PairwiseUnrelated(H, P))
            \cup Clause("not_written", S!EveryRepresented(H, full, P))

Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE Clause("something_overwritten", x.out.kept)
         \cup Clause("unreadable", \A i \in DOMAIN x.out.files : x.out.files[i].readable)
         \cup (IF x.in.cmd = "suplat" THEN Superlattices(x) ELSE Enumeration(x))

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
