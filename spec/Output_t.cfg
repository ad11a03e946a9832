SPECIFICATION Spec
CONSTANTS
 RUNS = {"a", "b"}
 DNAMES = {"p", "q", "r"}
 FNAMES = {"x", "y", "z"}
 NSTRU = 3
INVARIANTS NothingOverwritten OwnDirectory OnePerStructure
PROPERTIES Ends
CHECK_DEADLOCK FALSE
