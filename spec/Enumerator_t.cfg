SPECIFICATION Spec
CONSTANTS
  NSITE = 4
  KINDS = {5, 6, 7}
  SPECK = 7
INVARIANTS NoDuplicates NothingLost AllRepresented CountIsBurnside OnlyPermitted
CHECK_DEADLOCK FALSE
