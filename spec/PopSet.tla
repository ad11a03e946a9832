------------------------------- MODULE PopSet -------------------------------
(***************************************************************************)
(* The random-pop set.  Abstractly a set; concretely (RandomPopSet) a list  *)
(* of the elements plus a map from element to its place in the list, where  *)
(* removal swaps the victim with the last element.  The concrete machine    *)
(* below is checked to refine the abstract one for small ELEMS.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}

--------------------------- (* abstract operations *) ----------------------
Res(s, err, ret) == [s |-> s, err |-> err, ret |-> ret]
Bool(b) == IF b THEN {1} ELSE {0}
\* allowed outcomes of an operation on the set S; op.x an element, op.xs a sequence of elements;
\* ret is the set of things returned (a random choice: one outcome per choice)
Outcomes(S, op) ==
    LET X == Range(op.xs) IN
    CASE op.op \in {"add", "push"} -> {Res(S \cup {op.x}, FALSE, {})}
      [] op.op = "discard" -> {Res(S \ {op.x}, FALSE, {})}
      [] op.op = "remove" -> {IF op.x \in S THEN Res(S \ {op.x}, FALSE, {}) ELSE Res(S, TRUE, {})}
      [] op.op \in {"random_pop"} -> IF S = {} THEN {Res(S, FALSE, {})} ELSE {Res(S \ {y}, FALSE, {y}) : y \in S}
      [] op.op = "pop" -> IF S = {} THEN {Res(S, TRUE, {})} ELSE {Res(S \ {y}, FALSE, {y}) : y \in S}
      [] op.op = "get_random" -> IF S = {} THEN {Res(S, FALSE, {})} ELSE {Res(S, FALSE, {y}) : y \in S}
      \* many draws: every element turns up
      [] op.op \in {"sample", "sample_pop"} -> {Res(S, FALSE, S)}
      [] op.op = "contains" -> {Res(S, FALSE, Bool(op.x \in S))}
      [] op.op = "clear" -> {Res({}, FALSE, {})}
      [] op.op = "ior" -> {Res(S \cup X, FALSE, {})}
      [] op.op = "iand" -> {Res(S \cap X, FALSE, {})}
      [] op.op = "isub" -> {Res(S \ X, FALSE, {})}
      [] op.op = "ixor" -> {Res((S \ X) \cup (X \ S), FALSE, {})}
      [] op.op = "or" -> {Res(S, FALSE, S \cup X)}
      [] op.op = "and" -> {Res(S, FALSE, S \cap X)}
      [] op.op = "sub" -> {Res(S, FALSE, S \ X)}
      [] op.op = "eq" -> {Res(S, FALSE, Bool(S = X))}
      [] op.op = "new" -> {Res(X, FALSE, {})}

--------------------------- (* the implementation's design *) --------------
CONSTANT ELEMS
VARIABLES list, map
vars == <<list, map>>
Init == list = <<>> /\ map = <<>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Add(x) == IF x \in DOMAIN map THEN UNCHANGED vars
          ELSE map' = Upd(map, x, Len(list) + 1) /\ list' = Append(list, x)
SwapOut(x) ==
    LET i == map[x]
        n == Len(list)
        sw == [list EXCEPT ![i] = list[n], ![n] = list[i]]
    IN /\ list' = SubSeq(sw, 1, n - 1)
       /\ map' = Without(Upd(map, sw[i], i), x)
Discard(x) == IF x \in DOMAIN map THEN SwapOut(x) ELSE UNCHANGED vars
RandomPop == Len(list) > 0 /\ \E i \in DOMAIN list : SwapOut(list[i])
Next == RandomPop \/ \E x \in ELEMS : Add(x) \/ Discard(x)
Spec == Init /\ [][Next]_vars

abstract == Range(list)
Places == /\ DOMAIN map = Range(list)
          /\ Cardinality(Range(list)) = Len(list)
          /\ \A x \in DOMAIN map : list[map[x]] = x
\* refinement: every concrete step is an abstract one
Refines ==
    [][\/ \E x \in ELEMS : abstract' = abstract \cup {x}
       \/ \E x \in ELEMS : abstract' = abstract \ {x}]_abstract
=============================================================================
