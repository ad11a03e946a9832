SPECIFICATION Spec
CONSTANTS
  NSITE = 4
  KINDS = {5, 7}
  SPECK = 7
  TOP = 4
INVARIANTS TypeOK NoDuplicates LevelComplete NotEarly
CHECK_DEADLOCK FALSE
