---- MODULE MC_TreeSearch ----
EXTENDS TreeSearch
Vals == {-4000, 0, 4000}
====
