SPECIFICATION Spec
CONSTANT ELEMS = {1, 2, 3, 4, 5}
INVARIANT Places
PROPERTY Refines
CHECK_DEADLOCK FALSE
