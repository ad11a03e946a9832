------------------------------- MODULE Listing -------------------------------
(***************************************************************************)
(* A cell as a way of writing down a crystal.  A view is everything a cell  *)
(* says about itself; a crystal is its set of occupied places.  Two views   *)
(* of the same crystal must be the same apart from the periodic images      *)
(* their positions lie in.                                                  *)
(***************************************************************************)
EXTENDS Crystal, Species

Places(c) == {<<Wrap(c.sites[i], c.N), c.nums[i]>> : i \in DOMAIN c.sites}
\* a view v says of itself that it is the crystal c
Holds(v, c) ==
    /\ Len(v.sites) = Len(c.sites) /\ Len(v.nums) = Len(v.sites)
    /\ {<<Wrap(v.sites[i], c.N), v.nums[i]>> : i \in DOMAIN v.sites} = Places(c)
\* all parts of a view agree with one another
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Coherent(v) ==
    /\ v.spg.sites = v.sites /\ v.spg.nums = v.nums /\ v.spg.same
    /\ v.count = Len(v.sites)
    /\ v.formula = Formula(v.nums)
    /\ v.cart = v.sites
    /\ \A i \in DOMAIN v.of :
          LET o == v.of[i] I == {k \in DOMAIN v.nums : v.nums[k] = o.z}
          IN /\ o.n = Cardinality(I)
             /\ Len(o.cart) = Cardinality(I)
             /\ {o.cart[k] : k \in DOMAIN o.cart} = {v.sites[k] : k \in I}
\* two views list the same thing in the same order
SameListing(v, w, N) ==
    /\ Len(v.sites) = Len(w.sites)
    /\ \A i \in DOMAIN v.sites : Wrap(v.sites[i], N) = Wrap(w.sites[i], N)
    /\ v.nums = w.nums /\ v.id = w.id /\ v.formula = w.formula /\ v.count = w.count
\* identifiers tell colorings apart, and nothing else
IdsFaithful(ids, nums) == \A i, j \in DOMAIN ids : (ids[i] = ids[j]) <=> (nums[i] = nums[j])
=============================================================================
