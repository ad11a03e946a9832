------------------------------ MODULE CellEdit ------------------------------
(***************************************************************************)
(* The editable cell: a mutable sequence of sites under a fixed lattice.    *)
(* A site is <<atomic number, x, y, z>> (coordinates in units of 1/N).      *)
(* The state is a sequence of cells [lat, sites]; edits act on one of them, *)
(* a copy adds a new one that shares nothing with its source.               *)
(*                                                                         *)
(* Outcomes(st, op) is the set of allowed [st, err, ret] of one operation:  *)
(* the state afterwards, whether it is refused, what it returns.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Norm(i, n) == IF i < 0 THEN i + n ELSE i                 \* Python's negative indices
ValidIndex(i, n) == Norm(i, n) >= 0 /\ Norm(i, n) < n
Clip(i, n) == LET k == Norm(i, n) IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k

Cut(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))             \* drop 0-based k
Splice(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Put(s, k, x) == [s EXCEPT ![k + 1] = x]
Spliced(s, a, b, t) == SubSeq(s, 1, a) \o t \o SubSeq(s, (IF b < a THEN a ELSE b) + 1, Len(s))   \* s[a:b] = t
Between(s, a, b) == SubSeq(s, a + 1, b)
DropAll(s, I) ==
    LET keep == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : (j - 1) \notin I)
    IN [j \in 1..Len(keep) |-> s[keep[j]]]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Shift(site, v) == <<site[1], site[2] + v[1], site[3] + v[2], site[4] + v[3]>>
Occurs(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
IsPermutationOf(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A x \in {s[j] : j \in DOMAIN s} : Occurs(s, x) = Occurs(t, x)

Range(f) == {f[i] : i \in DOMAIN f}
SetSites(st, h, s) == [st EXCEPT ![h].sites = s]
Ok(st, ret) == [st |-> st, err |-> FALSE, ret |-> ret]
Refused(st) == [st |-> st, err |-> TRUE, ret |-> <<>>]
Bool(b) == IF b THEN <<1>> ELSE <<0>>

Outcomes(st, op) ==
    LET h == op.h
        s == st[h].sites
        n == Len(s)
        k == Norm(op.i, n)
        valid == ValidIndex(op.i, n)
    IN CASE op.op \in {"append", "append_site"} -> {Ok(SetSites(st, h, Append(s, op.sites[1])), <<>>)}
         [] op.op \in {"extend", "append_sites", "iadd"} -> {Ok(SetSites(st, h, s \o op.sites), <<>>)}
         \* the sites of another cell, or of this one, or one of them: from then on each cell has its own
         [] op.op \in {"extend_cell", "append_sites_cell", "iadd_cell"} -> {Ok(SetSites(st, h, s \o st[op.h2].sites), <<>>)}
         [] op.op = "append_from" ->
              LET t == st[op.h2].sites m == Len(t)
              IN IF ValidIndex(op.i, m) THEN {Ok(SetSites(st, h, Append(s, t[Norm(op.i, m) + 1])), <<>>)} ELSE {Refused(st)}
         [] op.op = "del_slice" -> {Ok(SetSites(st, h, Spliced(s, Clip(op.is[1], n), Clip(op.is[2], n), <<>>)), <<>>)}
         [] op.op = "set_slice" -> {Ok(SetSites(st, h, Spliced(s, Clip(op.is[1], n), Clip(op.is[2], n), op.sites)), <<>>)}
         [] op.op = "get_slice" -> {Ok(st, Between(s, Clip(op.is[1], n), Clip(op.is[2], n)))}
         [] op.op = "insert" -> {Ok(SetSites(st, h, Splice(s, Clip(op.i, n), op.sites[1])), <<>>)}
         [] op.op = "pop" -> IF valid THEN {Ok(SetSites(st, h, Cut(s, k)), s[k + 1])} ELSE {Refused(st)}
         [] op.op = "pop_last" -> IF n > 0 THEN {Ok(SetSites(st, h, Cut(s, n - 1)), s[n])} ELSE {Refused(st)}
         [] op.op \in {"del", "remove_site"} -> IF valid THEN {Ok(SetSites(st, h, Cut(s, k)), <<>>)} ELSE {Refused(st)}
         [] op.op = "remove_last" -> IF n > 0 THEN {Ok(SetSites(st, h, Cut(s, n - 1)), <<>>)} ELSE {Refused(st)}
         [] op.op = "remove_sites" -> {Ok(SetSites(st, h, DropAll(s, Range(op.is))), <<>>)}
         [] op.op = "set" -> IF valid THEN {Ok(SetSites(st, h, Put(s, k, op.sites[1])), <<>>)} ELSE {Refused(st)}
         [] op.op = "get" -> IF valid THEN {Ok(st, s[k + 1])} ELSE {Refused(st)}
         [] op.op = "reverse" -> {Ok(SetSites(st, h, Rev(s)), <<>>)}
         [] op.op = "clear" -> {Ok(SetSites(st, h, <<>>), <<>>)}
         \* removing a value takes out the first site equal to it (equality may tell apart
         \* sites that coincide up to rounding, hence any equal one up to the named one)
         [] op.op = "remove" -> IF valid THEN {Ok(SetSites(st, h, Cut(s, j)), <<>>) :
                                               j \in {j \in 0..k : s[j + 1] = s[k + 1]}}
                                ELSE {Refused(st)}
         [] op.op = "translate" -> IF valid THEN {Ok(SetSites(st, h, Put(s, k, Shift(s[k + 1], op.v))), <<>>)}
                                   ELSE {Refused(st)}
         [] op.op = "copy" -> {Ok(Append(st, st[h]), <<>>)}
         [] op.op = "eq" -> {Ok(st, Bool(st[h] = st[op.h2]))}
         [] op.op = "len" -> {Ok(st, <<n>>)}

-----------------------------------------------------------------------------
(* The machine, for small constants *)
CONSTANTS SITES, IDX, MAXLEN, MAXCELLS
OpNames == {"append", "extend", "insert", "pop", "pop_last", "del", "remove_site", "remove_last", "remove_sites",
            "set", "get", "reverse", "clear", "remove", "translate", "copy", "eq", "len",
            "extend_cell", "append_from", "del_slice", "set_slice", "get_slice"}
Slices == {"del_slice", "set_slice", "get_slice"}
Ops(st) ==
    [op : OpNames \ ({"extend", "remove_sites"} \cup Slices), h : DOMAIN st, h2 : DOMAIN st, i : IDX, is : {<<>>},
     sites : {<<x>> : x \in SITES}, v : {<<1, 0, 0>>}]
    \cup [op : {"extend"}, h : DOMAIN st, h2 : {1}, i : {0}, is : {<<>>},
          sites : {<<x, y>> : x \in SITES, y \in SITES}, v : {<<0, 0, 0>>}]
    \cup [op : {"remove_sites"}, h : DOMAIN st, h2 : {1}, i : {0}, is : {<<0>>, <<0, 1>>, <<1>>, <<>>, <<2, 0>>},
          sites : {<<>>}, v : {<<0, 0, 0>>}]
    \cup [op : Slices, h : DOMAIN st, h2 : {1}, i : {0}, is : {<<0, 1>>, <<1, 2>>, <<-1, 2>>, <<2, 1>>},
          sites : {<<>>} \cup {<<x, x>> : x \in SITES}, v : {<<0, 0, 0>>}]
\* only what matters for an operation is varied
Relevant(o) ==
    /\ (o.op \notin {"eq", "extend_cell", "append_from"} => o.h2 = 1)
    /\ (o.op \notin {"insert", "pop", "del", "remove_site", "set", "get", "remove", "translate", "append_from"} => o.i = 0)
    /\ (o.op \notin {"append", "insert", "set"} => o.sites = <<CHOOSE x \in SITES : TRUE>> \/ o.op \in {"extend", "remove_sites", "set_slice"}
                                               \/ o.sites = <<>>)

VARIABLES st, last
vars == <<st, last>>
Init == st = <<[lat |-> 1, sites |-> <<>>]>> /\ last = [op |-> "none", h |-> 1, err |-> FALSE]
Next == \E o \in {o \in Ops(st) : Relevant(o)} : \E r \in Outcomes(st, o) :
           /\ Len(r.st) <= MAXCELLS /\ \A c \in DOMAIN r.st : Len(r.st[c].sites) <= MAXLEN
           /\ st' = r.st /\ last' = [op |-> o.op, h |-> o.h, err |-> r.err]
Spec == Init /\ [][Next]_vars

\* an edit changes at most the cell it is applied to, and lattices never
Isolated == [][\A c \in DOMAIN st : /\ c \in DOMAIN st' /\ st'[c].lat = st[c].lat
                                    /\ (c # last'.h => st'[c] = st[c])]_vars
RefusalChangesNothing == [][last'.err => st' = st]_vars
CopyIsEqual == last.op = "copy" => st[Len(st)] = st[last.h]
\* queries change nothing
Pure == [][last'.op \in {"get", "eq", "len", "get_slice"} => st' = st]_vars
=============================================================================
