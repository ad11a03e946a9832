SPECIFICATION Spec
CONSTANTS
 VERTS = {1, 2, 3, 4}
 GOAL = 4
INVARIANTS GrowsRight Boundary NeverStuck
PROPERTY Finishes
CHECK_DEADLOCK FALSE
