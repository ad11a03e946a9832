---------------------------- MODULE Trace_popset ----------------------------
(* Histories of the random-pop set against PopSet. *)
EXTENDS TraceBase
P == INSTANCE PopSet WITH ELEMS <- {}, list <- <<>>, map <- <<>>
Range(f) == {f[i] : i \in DOMAIN f}

RECURSIVE Follow(_, _, _)
Follow(S, steps, n) ==
    IF n > Len(steps) THEN {}
    ELSE LET o == steps[n].obs
             T == Range(o.items)
             fit == \E r \in P!Outcomes(S, steps[n].op) : r.s = T /\ r.err = o.err /\ (~r.err => r.ret = Range(o.ret))
         IN IF o.len # Cardinality(T) \/ Len(o.items) # Cardinality(T) THEN {"not_a_set"}
            ELSE IF Range(o.members) # T THEN {"membership"}
            ELSE IF ~fit THEN {"step_" \o steps[n].op.op}
            ELSE Follow(T, steps, n + 1)
Judge(x) == IF Raised(x) THEN {"raised"} ELSE Follow({}, x.out.steps, 1)

VARIABLE l
Init == l = 1
Next == \/ l <= NCases /\ Report(Cases[l], Judge(Cases[l])) /\ l' = l + 1
        \/ l = NCases + 1 /\ Done(l) /\ l' = l + 1
=============================================================================
