---------------------------- MODULE Trace_pulls ----------------------------
(***************************************************************************)
(* Recorded schedules of pulls on lazily evaluated enumerations.  The      *)
(* state keeps, per opened enumeration <<job, level>>, what it has handed  *)
(* out, the colorings that covers, and whether it has ended.  Every event  *)
(* must be a step the specification allows in that state; in particular    *)
(* no schedule may change what one enumeration hands out.                  *)
(***************************************************************************)
EXTENDS Occupation, TraceBase

Mother(c) == [N |-> c.in.cr.N, G |-> c.in.cr.G, sites |-> c.out.mother.sites, nums |-> c.out.mother.nums]
SameAtoms(a, b) ==
    {<<Wrap(a.sites[i], a.N), a.nums[i]>> : i \in 1..Len(a.sites)} =
    {<<Wrap(b.sites[i], b.N), b.nums[i]>> : i \in 1..Len(b.sites)}
    /\ Len(a.sites) = Len(b.sites)

IsLevels(op) == op.mode \in {"lv_any", "lv_ele", "lv_wy"}
Allowed(c, op) ==
    LET nums == c.out.mother.nums IN
    CASE op.mode \in {"any", "tri", "lv_any"} -> DOMAIN nums
      [] op.mode \in {"wy", "lv_wy"} -> {i \in DOMAIN nums : c.out.wyck[i] = c.out.wyck[op.w + 1]}
      [] OTHER -> SitesOf(nums, op.ele)
Cand(c, op, lv) ==
    LET nums == c.out.mother.nums A == Allowed(c, op) IN
    IF IsLevels(op) THEN Level(nums, A, lv, op.z)
    ELSE IF op.mode = "tri" THEN Substituted2(nums, A, op.n, op.z, op.n2, op.z2)
    ELSE Substituted(nums, A, op.n, op.z)
NumLevels(c, op) ==
    LET have == Cardinality(SitesOf(c.out.mother.nums, op.z)) IN Max(0, op.n - have)

VARIABLES l, k, P, book
vars == <<l, k, P, book>>
\* book: <<job, level>> -> [cand, cov (colorings covered so far), done]
Case == Cases[l]
Empty == [x \in {} |-> 0]

Opened(c) == [key \in {<<j, 1>> : j \in {j \in DOMAIN c.in.jobs : ~IsLevels(c.in.jobs[j])}} |->
                [cand |-> Cand(c, c.in.jobs[key[1]], 1), cov |-> {}, done |-> FALSE]]

\* the clause that fails, or "" when the event is allowed
Wrong(c, e) ==
    LET op == c.in.jobs[e.j] key == <<e.j, e.lv>> IN
    CASE e.ev = "open" -> IF e.lv <= NumLevels(c, op) THEN "" ELSE "too_many_levels"
      [] e.ev = "opened_all" -> IF e.lv = NumLevels(c, op) THEN "" ELSE "too_few_levels"
      [] e.ev = "pull" -> IF book[key].done THEN "pull_after_end"
                          ELSE IF e.r \notin book[key].cand THEN "not_permitted"
                          ELSE IF e.r \in book[key].cov THEN "duplicate" ELSE ""
      [] e.ev = "end" -> IF book[key].cov = book[key].cand THEN "" ELSE "missing"
      [] OTHER -> "unknown_event"
After(c, e) ==
    LET op == c.in.jobs[e.j] key == <<e.j, e.lv>> IN
    CASE e.ev = "open" -> book @@ (key :> [cand |-> Cand(c, op, e.lv), cov |-> {}, done |-> FALSE])
      [] e.ev = "pull" -> [book EXCEPT ![key].cov = @ \cup Orbit(e.r, P)]
      [] e.ev = "end" -> [book EXCEPT ![key].done = TRUE]
      [] OTHER -> book

Init == l = 1 /\ k = 0 /\ P = {} /\ book = Empty

Advance == l' = l + 1 /\ k' = 0 /\ P' = {} /\ book' = Empty
Begin == /\ l <= NCases /\ k = 0
         /\ IF Raised(Case) THEN Report(Case, {"raised"}) /\ Advance
            ELSE IF ~SameAtoms(Mother(Case), Case.in.cr) THEN Report(Case, {"mother_differs"}) /\ Advance
            ELSE /\ P' = SymPerms(Mother(Case))
                 /\ book' = Opened(Case)
                 /\ k' = 1 /\ UNCHANGED l
Step == /\ l <= NCases /\ k >= 1 /\ k <= Len(Case.out.steps)
        /\ LET e == Case.out.steps[k] w == Wrong(Case, e)
           IN IF w # "" THEN Report(Case, {w}) /\ Advance
              ELSE book' = After(Case, e) /\ k' = k + 1 /\ UNCHANGED <<l, P>>
Finish == /\ l <= NCases /\ k = Len(Case.out.steps) + 1 /\ k >= 1
          /\ Report(Case, Clause("mother_modified", Case.out.intact)
                          \cup Clause("yielded_cell_changed", Case.out.stable)
                          \cup Clause("geometry_changed", Case.out.geom))
          /\ Advance
Stop == l = NCases + 1 /\ Done(l) /\ l' = l + 1 /\ UNCHANGED <<k, P, book>>
Next == IF l <= NCases
        THEN IF k = 0 THEN Begin
             ELSE IF k <= Len(Case.out.steps) THEN Step ELSE Finish
        ELSE Stop
=============================================================================
