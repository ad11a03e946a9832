------------------------------ MODULE Species ------------------------------
(***************************************************************************)
(* Chemical species.  A species is its atomic number; 0 is the vacancy      *)
(* ("ghost"), written G.  Symbol and number determine each other.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elements == <<
      "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar",
      "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr",
      "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe",
      "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf",
      "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th",
      "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs",
      "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og">>
Ghost == "G"
NElements == Len(Elements)
Symbol(z) == IF z = 0 THEN Ghost ELSE Elements[z]
IsSymbol(s) == s = Ghost \/ \E z \in 1..NElements : Elements[z] = s
NumberOf(s) == IF s = Ghost THEN 0 ELSE CHOOSE z \in 1..NElements : Elements[z] = s

\* the table is a bijection
SpeciesOk == /\ \A z \in 0..NElements : NumberOf(Symbol(z)) = z
             /\ Cardinality({Symbol(z) : z \in 0..NElements}) = NElements + 1

--------------------------- (* formulas *) ---------------------------------
CountOf(nums, z) == Cardinality({i \in DOMAIN nums : nums[i] = z})
\* atoms of each element, vacancies left out, in order of atomic number:
\* a sequence of <<symbol, count>>
Formula(nums) ==
    LET zs == {nums[i] : i \in DOMAIN nums} \ {0}
        Rank(z) == Cardinality({y \in zs : y < z}) + 1
    IN [k \in 1..Cardinality(zs) |->
          LET z == CHOOSE z \in zs : Rank(z) = k IN <<Symbol(z), CountOf(nums, z)>>]
=============================================================================
