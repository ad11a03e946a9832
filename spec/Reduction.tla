----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* The reduction of a list of superlattices to one per class, as a state   *)
(* machine: members are examined one by one and kept when related to none  *)
(* of those kept so far.  Checked for every index up to MAXN over several  *)
(* lattices and all their site symmetries; the theory used by the trace    *)
(* specification (sublattices counted once, relation an equivalence,       *)
(* number of classes by Burnside) is checked on the way.                   *)
(***************************************************************************)
EXTENDS Superlattice, SequencesExt

CONSTANTS MAXN

Grams == { <<<<9,0,0>>, <<0,9,0>>, <<0,0,9>>>>,            \* cubic
           <<<<8,4,4>>, <<4,8,4>>, <<4,4,8>>>>,            \* face centred
           <<<<8,-4,0>>, <<-4,8,0>>, <<0,0,25>>>>,         \* hexagonal
           <<<<9,0,0>>, <<0,16,0>>, <<0,0,25>>>>,          \* orthorhombic
           <<<<10,1,2>>, <<1,12,3>>, <<2,3,16>>>> }        \* triclinic

VARIABLES n, flat, P, todo, kept
vars == <<n, flat, P, todo, kept>>

Full(k, f) == IF f THEN HNFs2D(k) ELSE HNFs(k)
Init == /\ n \in 1..MAXN /\ flat \in BOOLEAN
        /\ P \in {Rotations(G) : G \in Grams}
        /\ todo = SetToSeq(Full(n, flat)) /\ kept = <<>>
Examine == /\ todo # <<>>
           /\ LET h == Head(todo)
              IN kept' = IF \E i \in DOMAIN kept : RelatedLattices(kept[i], h, P) THEN kept ELSE Append(kept, h)
           /\ todo' = Tail(todo)
           /\ UNCHANGED <<n, flat, P>>
Next == Examine
Spec == Init /\ [][Next]_vars

Idle == todo = <<>>
Unrelated == PairwiseUnrelated(kept, P)
Represented == Idle => EveryRepresented(kept, Full(n, flat), P)
\* the Hermite normal forms are each sublattice exactly once
CountOK == kept = <<>> =>
    /\ Cardinality(Full(n, flat)) = (IF flat THEN IndexCount2D(n) ELSE IndexCount(n))
    /\ PairwiseDifferent(SetToSeq(Full(n, flat)))
\* a rotated sublattice is again one of them (3D), so Burnside applies
Image(h, R) == MatMul(h, Transpose(R))
FixedBy(R) == Cardinality({h \in Full(n, flat) : SameLattice(Image(h, R), h)})
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN FixedBy(r) + SumOver(S \ {r})
BurnsideOK == Idle /\ ~flat => Len(kept) * Cardinality(P) = SumOver(P)
=============================================================================
