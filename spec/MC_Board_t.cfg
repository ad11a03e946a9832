SPECIFICATION Spec
CONSTANTS
 SHAPE <- Shape
 KINDS = {0, 5}
 MAXB = 3
INVARIANT Shapes
PROPERTY Isolated
CHECK_DEADLOCK FALSE
