---------------------------- MODULE MC_CellEdit ----------------------------
EXTENDS CellEdit
Sites == {<<5, 0, 0, 0>>, <<7, 1, 0, 0>>}
Idx == -2..2
\* translations could run away: keep the window small
Window == \A c \in DOMAIN st : \A j \in DOMAIN st[c].sites : st[c].sites[j][2] <= 2
=============================================================================
