SPECIFICATION Spec
CONSTANTS
 VERTS = {1, 2, 3, 4, 5}
 GOAL = 5
INVARIANTS GrowsRight Boundary NeverStuck
PROPERTY Finishes
CHECK_DEADLOCK FALSE
