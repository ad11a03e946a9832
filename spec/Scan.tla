-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* How a supercell finds its lattice points: the points of a cube of side  *)
(* three times the largest entry of H are tried plane by plane, those with *)
(* fractional coordinates in [0, 1) of the new cell are kept.  Checked for *)
(* every Hermite normal form of index up to MAXN and every diagonal        *)
(* scaling up to it: exactly det H points, one from every class.           *)
(***************************************************************************)
EXTENDS Superlattice
CONSTANTS MAXN
VARIABLES H, x, found
vars == <<H, x, found>>

Top(h) == SetMax({h[a][b] : a \in Ax, b \in Ax})
Diagonals == {h \in {<<<<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>>>> : a \in 1..MAXN, b \in 1..MAXN, c \in 1..MAXN} : Det(h) <= 2 * MAXN}
Init == /\ H \in Diagonals \cup UNION {HNFs(k) : k \in 1..MAXN}
        /\ x = 0 /\ found = {}
InCell(v) == LET w == RowMul(v, Adj(H)) IN \A a \in Ax : w[a] >= 0 /\ w[a] < Det(H)
Plane(k) == {v \in {<<k, y, z>> : y \in 0..3*Top(H)-1, z \in 0..3*Top(H)-1} : InCell(v)}
Step == /\ x < 3 * Top(H)
        /\ found' = found \cup Plane(x) /\ x' = x + 1 /\ UNCHANGED H
Next == Step
Spec == Init /\ [][Next]_vars

\* the difference of two lattice points is a point of the superlattice
Congruent(u, v) == LET w == RowMul(Sub(u, v), Adj(H)) IN \A a \in Ax : w[a] % Det(H) = 0
NoneTwice == \A u, v \in found : Congruent(u, v) => u = v
AtMost == Cardinality(found) <= Det(H)
AllFound == x = 3 * Top(H) =>
    /\ Cardinality(found) = Det(H)
    /\ \A y \in 0..2, z \in 0..2, t \in 0..2 : \E v \in found : Congruent(v, <<y, z, t>>)
=============================================================================
