--------------------------- MODULE Suite_CellEdit ---------------------------
(* Behaviours of CellEdit for replay into the code: random walks of TLC's simulator. *)
EXTENDS CellEdit, TLC, Json
Sites == {<<5, 0, 0, 0>>, <<7, 1, 0, 2>>, <<0, 3, 3, 1>>, <<5, 0, 2, 0>>}
Idx == -4..4
VARIABLE hist
DEPTH == 14
SInit == Init /\ hist = <<>>
\* choose the kind of operation first, so that rare kinds are not drowned by those with many arguments
Draw(n) == [op |-> n, h |-> RandomElement(DOMAIN st), h2 |-> RandomElement(DOMAIN st), i |-> RandomElement(Idx),
            is |-> IF n = "remove_sites" THEN RandomElement({<<>>, <<0>>, <<1>>, <<0, 1>>, <<2, 0>>, <<3>>, <<4, 2, 1>>})
                  ELSE IF n \in Slices THEN <<RandomElement(-4..5), RandomElement(-4..5)>> ELSE <<>>,
            sites |-> IF n \in {"extend", "set_slice"} THEN <<RandomElement(Sites), RandomElement(Sites)>> ELSE <<RandomElement(Sites)>>,
            v |-> <<RandomElement(-2..2), RandomElement(-2..2), RandomElement(-2..2)>>]
End == last.op = "end"
SNext == \/ Len(hist) = DEPTH /\ ~End /\ last' = [last EXCEPT !.op = "end"] /\ UNCHANGED <<st, hist>>
         \/ /\ Len(hist) < DEPTH
            /\ \E o \in {Draw(n) : n \in OpNames} :
              \E r \in Outcomes(st, o) :
               /\ Len(r.st) <= MAXCELLS /\ \A c \in DOMAIN r.st : Len(r.st[c].sites) <= MAXLEN
               /\ st' = r.st /\ last' = [op |-> o.op, h |-> o.h, err |-> r.err]
               /\ hist' = Append(hist, o)
Emit == End => PrintT("B" \o ToJson(hist))
=============================================================================
