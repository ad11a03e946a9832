SPECIFICATION Spec
CONSTANTS
 MAXN = 4
INVARIANTS NoneTwice AtMost AllFound
CHECK_DEADLOCK FALSE
