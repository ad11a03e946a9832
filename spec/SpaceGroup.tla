----------------------------- MODULE SpaceGroup -----------------------------
(***************************************************************************)
(* The crystal class (geometric point group) of a primitive crystal,       *)
(* computed exactly from its symmetry operations, and the range of space    *)
(* group numbers belonging to each of the 32 classes.                       *)
(***************************************************************************)
EXTENDS Crystal
Trace3(M) == M[1][1] + M[2][2] + M[3][3]
\* operation types  -6 -4 -3 m -1 1 2 3 4 6  by determinant and trace
TypeOf(R) == CASE Det(R) = 1 /\ Trace3(R) = 3 -> 6      [] Det(R) = 1 /\ Trace3(R) = -1 -> 7
               [] Det(R) = 1 /\ Trace3(R) = 0 -> 8      [] Det(R) = 1 /\ Trace3(R) = 1 -> 9
               [] Det(R) = 1 /\ Trace3(R) = 2 -> 10     [] Det(R) = -1 /\ Trace3(R) = -3 -> 5
               [] Det(R) = -1 /\ Trace3(R) = 1 -> 4     [] Det(R) = -1 /\ Trace3(R) = 0 -> 3
               [] Det(R) = -1 /\ Trace3(R) = -1 -> 2    [] Det(R) = -1 /\ Trace3(R) = -2 -> 1
Histogram(P) == [t \in 1..10 |-> Cardinality({R \in P : TypeOf(R) = t})]
\* class histogram, first and last space group number
Classes == {
  <<<<0,0,0,0,0,1,0,0,0,0>>, 1, 1>>,      <<<<0,0,0,0,1,1,0,0,0,0>>, 2, 2>>,
  <<<<0,0,0,0,0,1,1,0,0,0>>, 3, 5>>,      <<<<0,0,0,1,0,1,0,0,0,0>>, 6, 9>>,
  <<<<0,0,0,1,1,1,1,0,0,0>>, 10, 15>>,    <<<<0,0,0,0,0,1,3,0,0,0>>, 16, 24>>,
  <<<<0,0,0,2,0,1,1,0,0,0>>, 25, 46>>,    <<<<0,0,0,3,1,1,3,0,0,0>>, 47, 74>>,
  <<<<0,0,0,0,0,1,1,0,2,0>>, 75, 80>>,    <<<<0,2,0,0,0,1,1,0,0,0>>, 81, 82>>,
  <<<<0,2,0,1,1,1,1,0,2,0>>, 83, 88>>,    <<<<0,0,0,0,0,1,5,0,2,0>>, 89, 98>>,
  <<<<0,0,0,4,0,1,1,0,2,0>>, 99, 110>>,   <<<<0,2,0,2,0,1,3,0,0,0>>, 111, 122>>,
  <<<<0,2,0,5,1,1,5,0,2,0>>, 123, 142>>,  <<<<0,0,0,0,0,1,0,2,0,0>>, 143, 146>>,
  <<<<0,0,2,0,1,1,0,2,0,0>>, 147, 148>>,  <<<<0,0,0,0,0,1,3,2,0,0>>, 149, 155>>,
  <<<<0,0,0,3,0,1,0,2,0,0>>, 156, 161>>,  <<<<0,0,2,3,1,1,3,2,0,0>>, 162, 167>>,
  <<<<0,0,0,0,0,1,1,2,0,2>>, 168, 173>>,  <<<<2,0,0,1,0,1,0,2,0,0>>, 174, 174>>,
  <<<<2,0,2,1,1,1,1,2,0,2>>, 175, 176>>,  <<<<0,0,0,0,0,1,7,2,0,2>>, 177, 182>>,
  <<<<0,0,0,6,0,1,1,2,0,2>>, 183, 186>>,  <<<<2,0,0,4,0,1,3,2,0,0>>, 187, 190>>,
  <<<<2,0,2,7,1,1,7,2,0,2>>, 191, 194>>,  <<<<0,0,0,0,0,1,3,8,0,0>>, 195, 199>>,
  <<<<0,0,8,3,1,1,3,8,0,0>>, 200, 206>>,  <<<<0,0,0,0,0,1,9,8,6,0>>, 207, 214>>,
  <<<<0,6,0,6,0,1,3,8,0,0>>, 215, 220>>,  <<<<0,6,8,9,1,1,9,8,6,0>>, 221, 230>> }
ClassNumbers(c) ==
    LET h == Histogram(PointGroup(c)) k == CHOOSE k \in Classes : k[1] = h IN k[2]..k[3]
\* textbook structures whose space group is known exactly
Known == [sc |-> 221, fcc |-> 225, bcc |-> 229, cscl |-> 221, rocksalt |-> 225, zincblende |-> 216,
          diamond |-> 227, perovskite |-> 221, hcp |-> 194, graphene |-> 191, bn |-> 187, tet1 |-> 123,
          ortho2 |-> 71, rhomb |-> 166, mono1 |-> 10, tric1 |-> 2, mos2 |-> 187, fluorite |-> 225, rutile |-> 136]
=============================================================================
