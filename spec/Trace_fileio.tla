---------------------------- MODULE Trace_fileio ----------------------------
(* Files written and read by the code against FileFormat. *)
EXTENDS FileFormat, TraceBase

St(x) == [N |-> x.in.N, L |-> x.in.L, sites |-> x.in.sites, nums |-> x.in.nums]
Keep(x) == IF x.in.op.yaml = 1 THEN AllSites(St(x)) ELSE RealSites(St(x))
Scaled(x) == x.in.op.p # x.in.op.q

ReadBack(x) ==
    LET st == St(x) b == x.out.back op == x.in.op
    IN Clause("read_lattice", LatticeIs(b.latt, st, op.p, op.q, ReadTol))
       \cup Clause("read_atoms", FracStructure(b, st, Keep(x), IF op.direct = 1 THEN ReadTol ELSE CartTol))
       \cup Clause("read_count", b.count = Len(b.nums))

Document(x) ==
    LET st == St(x) d == x.out.doc op == x.in.op
    IN Clause("written_lattice", LatticeIs(d.latt, st, 1, 1, ReadTol))
       \cup Clause("written_scale", Within(d.scale, op.p * M6, op.q, 1))
       \cup Clause("written_atoms", IF op.direct = 1 THEN FracStructure(d, st, Keep(x), ReadTol)
                                    ELSE CartStructure(d, st, Keep(x), ReadTol))
       \cup (IF op.yaml = 1
             THEN Clause("comment", d.comment = Formula(st.nums))
             ELSE Clause("incoherent", Coherent(d))
                  \cup Clause("mode", (d.mode = "D") = (op.direct = 1)))
Judge(x) ==
    IF Raised(x) THEN {"raised"}
    ELSE Clause("source_modified", x.out.intact)
         \cup ReadBack(x)
         \cup (IF x.in.op.what = "write" THEN Document(x) ELSE {})
         \cup (IF Has(x.out, "files")
               THEN Clause("files", x.out.files = IF x.in.op.via = "print" THEN <<>> ELSE <<x.in.op.name>>) ELSE {})
         \cup (IF Has(x.out, "same_text") THEN Clause("file_differs_from_text", x.out.same_text) ELSE {})

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
