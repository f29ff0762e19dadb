SPECIFICATION OnceSpec
CONSTANTS Procs = {1, 2, 3, 4}
 MaxObjs = 0
 OldWay = FALSE
INVARIANTS NeverLost
CHECK_DEADLOCK FALSE
