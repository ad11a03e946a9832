SPECIFICATION Spec
CONSTANTS
 MAXN = 9
INVARIANTS NoneTwice AtMost AllFound
CHECK_DEADLOCK FALSE
