----------------------------- MODULE Occupation -----------------------------
(***************************************************************************)
(* Enumeration of substitutional configurations.                           *)
(*                                                                         *)
(* A configuration ("coloring") is a sequence of atomic numbers over the   *)
(* sites 1..n.  The candidates of a request are the colorings reachable    *)
(* from the mother coloring by replacing atoms on permitted sites; the     *)
(* crystal's permutation group P splits them into orbits; a correct        *)
(* enumeration hands out exactly one member of each orbit.                 *)
(*                                                                         *)
(* The second half is the state machine of the enumerator itself: it is    *)
(* fed the candidates one by one in ANY order, keeps a set of seen         *)
(* colorings, emits what it has not seen and then marks the whole orbit.   *)
(***************************************************************************)
EXTENDS Crystal
FSE == INSTANCE FiniteSetsExt

--------------------------- (* what is asked for *) -------------------------
Put(col, S, z) == [i \in DOMAIN col |-> IF i \in S THEN z ELSE col[i]]
SitesOf(col, e) == {i \in DOMAIN col : col[i] = e}

\* subsets of S with exactly n members (none when n is out of range)
SubsetsOf(n, S) == IF n < 0 \/ n > Cardinality(S) THEN {} ELSE FSE!kSubset(n, S)
\* exactly n of the permitted sites A are chosen and set to z
Substituted(col, A, n, z) == {Put(col, S, z) : S \in SubsetsOf(n, A)}
\* two species on disjoint subsets of A
Substituted2(col, A, n1, z1, n2, z2) ==
    UNION {{Put(Put(col, S, z1), T, z2) : T \in SubsetsOf(n2, A \ S)} : S \in SubsetsOf(n1, A)}

\* level k of an incremental job: k atoms that were not z have become z
Level(col, A, k, z) == Substituted(col, {i \in A : col[i] # z}, k, z)

--------------------------- (* what must come out *) ------------------------
\* (taking the cardinality first makes TLC sort the set, so that membership is a binary search)
Permitted(out, cand) == Cardinality(cand) >= 0 /\ \A i \in DOMAIN out : out[i] \in cand
Covered(out, P) == {Moved(out[i], p) : i \in DOMAIN out, p \in P}    \* (UNION takes quadratic time in TLC)
Inequivalent(out, P) ==
    LET S == Range(out)
    IN /\ Cardinality(S) = Len(out)
       /\ \A j \in DOMAIN out : \A p \in P : LET m == Moved(out[j], p) IN m = out[j] \/ m \notin S
Complete(out, cand, P) == Cardinality(Covered(out, P)) = Cardinality(cand)
Closed(cand, P) == \A c \in cand : \A p \in P : Moved(c, p) \in cand

\* number of orbits, by Burnside's lemma: an independent count
Fixed(cand, p) == Cardinality({c \in cand : Moved(c, p) = c})
Burnside(cand, P) == FSE!FoldSet(LAMBDA p, acc : acc + Fixed(cand, p), 0, P) \div Cardinality(P)

=============================================================================
