SPECIFICATION Spec
CONSTANTS
 RUNS = {"a", "b"}
 DNAMES = {"p", "q", "r"}
 FNAMES = {"x", "y"}
 NSTRU = 2
INVARIANTS NothingOverwritten OwnDirectory OnePerStructure
PROPERTIES Ends
CHECK_DEADLOCK FALSE
