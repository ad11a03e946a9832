------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* The incremental enumeration: level k is produced lazily from the        *)
(* representatives of level k-1, each level being a two stage pipeline     *)
(*      (add one atom, drop exact repeats)  ->  (one per orbit)            *)
(* whose input is shared with the consumer of level k-1.  The consumer may *)
(* pull any level at any time and abandon any of them.                     *)
(*                                                                         *)
(* Checked for every permutation group on NSITE sites and every symmetric  *)
(* mother coloring, over EVERY interleaving of the levels.                 *)
(***************************************************************************)
EXTENDS Occupation

CONSTANTS NSITE, KINDS, SPECK, TOP

Sites == 1..NSITE
AllPerms == {p \in [Sites -> Sites] : Range(p) = Sites}
RECURSIVE Close(_)
Close(S) == LET T == S \cup {Compose(p, q) : p \in S, q \in S}
            IN IF T = S THEN S ELSE Close(T)
Groups == {Close({IdPerm(NSITE), p, q}) : p \in AllPerms, q \in AllPerms}
Symmetric(col, G) == \A p \in G : Moved(col, p) = col

VARIABLES P, mother, ele,
          out,      \* out[k]: the representatives level k has produced
          src,      \* src[k]: which member of level k-1 level k is reading
          site,     \* site[k]: the site it will try next
          dup,      \* dup[k]: colorings level k has tried
          iso,      \* iso[k]: colorings equivalent to something produced
          fin       \* levels that have reported exhaustion
vars == <<P, mother, ele, out, src, site, dup, iso, fin>>

K == 1..TOP
Init ==
    /\ P \in Groups
    /\ mother \in {c \in [Sites -> KINDS] : Symmetric(c, P)}
    /\ ele \in KINDS \ {SPECK}
    /\ out = [k \in 0..TOP |-> IF k = 0 THEN <<mother>> ELSE <<>>]
    /\ src = [k \in K |-> 1] /\ site = [k \in K |-> 1]
    /\ dup = [k \in K |-> {}] /\ iso = [k \in K |-> {}]
    /\ fin = {0}

\* level k works on (member src[k] of level k-1, site[k])
Work(k) ==
    /\ k \notin fin
    /\ src[k] <= Len(out[k-1])
    /\ LET cell == out[k-1][src[k]]
           new  == Put(cell, {site[k]}, SPECK)
           try  == cell[site[k]] = ele /\ new \notin dup[k]
           emit == try /\ new \notin iso[k]
       IN /\ dup' = IF try THEN [dup EXCEPT ![k] = @ \cup {new}] ELSE dup
          /\ out' = IF emit THEN [out EXCEPT ![k] = Append(@, new)] ELSE out
          /\ iso' = IF emit THEN [iso EXCEPT ![k] = @ \cup Orbit(new, P)] ELSE iso
          /\ IF site[k] < NSITE
             THEN site' = [site EXCEPT ![k] = @ + 1] /\ UNCHANGED src
             ELSE site' = [site EXCEPT ![k] = 1] /\ src' = [src EXCEPT ![k] = @ + 1]
    /\ UNCHANGED <<P, mother, ele, fin>>
\* level k-1 is exhausted and read to its end
Exhaust(k) ==
    /\ k \notin fin /\ (k-1) \in fin /\ src[k] > Len(out[k-1])
    /\ fin' = fin \cup {k}
    /\ UNCHANGED <<P, mother, ele, out, src, site, dup, iso>>
Next == \E k \in K : Work(k) \/ Exhaust(k)
Spec == Init /\ [][Next]_vars

Cand(k) == Level(mother, SitesOf(mother, ele), k, SPECK)
TypeOK == \A k \in K : Permitted(out[k], Cand(k))
NoDuplicates == \A k \in K : Inequivalent(out[k], P)
\* whatever the interleaving, an exhausted level is a full set of representatives
LevelComplete == \A k \in K : k \in fin => Complete(out[k], Cand(k), P)
NotEarly == \A k \in K : k \in fin => (k-1) \in fin
=============================================================================
