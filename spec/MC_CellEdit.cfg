SPECIFICATION Spec
CONSTANTS
 SITES <- Sites
 IDX <- Idx
 MAXLEN = 2
 MAXCELLS = 2
INVARIANT CopyIsEqual
PROPERTIES Isolated RefusalChangesNothing Pure
CONSTRAINT Window
CHECK_DEADLOCK FALSE
