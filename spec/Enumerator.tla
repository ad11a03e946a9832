----------------------------- MODULE Enumerator -----------------------------
(***************************************************************************)
(* State machine of the non-duplicate enumerator, model checked over every *)
(* permutation group on NSITE sites, every mother coloring over KINDS and  *)
(* every order in which the candidates may be presented.                   *)
(***************************************************************************)
EXTENDS Occupation

CONSTANTS NSITE, KINDS, SPECK

Sites == 1..NSITE
AllPerms == {p \in [Sites -> Sites] : Range(p) = Sites}

RECURSIVE Close(_)
Close(S) == LET T == S \cup {Compose(p, q) : p \in S, q \in S}
            IN IF T = S THEN S ELSE Close(T)
Groups == {Close({IdPerm(NSITE), p, q}) : p \in AllPerms, q \in AllPerms}

VARIABLES P, mother, todo, seen, out, pend
vars == <<P, mother, todo, seen, out, pend>>

\* the group of a crystal never moves an atom onto a different kind
Symmetric(col, G) == \A p \in G : Moved(col, p) = col

None == <<>>
Init ==
    /\ P \in Groups
    /\ mother \in {c \in [Sites -> KINDS] : Symmetric(c, P)}
    /\ \E e \in Range(mother), n \in 0..NSITE :
          /\ n <= Cardinality(SitesOf(mother, e))
          /\ todo = Substituted(mother, SitesOf(mother, e), n, SPECK)
    /\ seen = {} /\ out = <<>> /\ pend = None

\* the next candidate, whichever it is, has been seen: drop it
Drop == /\ pend = None
        /\ \E c \in todo : c \in seen /\ todo' = todo \ {c}
        /\ UNCHANGED <<P, mother, seen, out, pend>>
\* it has not: hand it to the consumer (who may stop here for ever) ...
Emit == /\ pend = None
        /\ \E c \in todo : /\ c \notin seen
                           /\ todo' = todo \ {c}
                           /\ out' = Append(out, c)
                           /\ pend' = c
        /\ UNCHANGED <<P, mother, seen>>
\* ... and mark everything equivalent to it when the consumer comes back
Mark == /\ pend # None
        /\ seen' = seen \cup Orbit(pend, P)
        /\ pend' = None
        /\ UNCHANGED <<P, mother, todo, out>>
Next == Drop \/ Emit \/ Mark
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Idle == todo = {} /\ pend = None
Cand == todo \cup seen \cup Range(out)
NoDuplicates == Inequivalent(out, P)
NothingLost == Idle => Covered(out, P) = seen /\ Closed(seen, P)
AllRepresented == Idle => Cardinality(Covered(out, P)) = Cardinality(Cand)
CountIsBurnside == Idle => Len(out) = Burnside(Cand, P)
OnlyPermitted == \A i \in DOMAIN out : \A s \in Sites :
                    out[i][s] # mother[s] => out[i][s] = SPECK
Finishes == <>Idle
=============================================================================
