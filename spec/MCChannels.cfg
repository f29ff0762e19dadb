SPECIFICATION ObjSpec
CONSTANTS Procs = {1}
 MaxObjs = 5
 OldWay = FALSE
INVARIANTS Identity
PROPERTY Immutable
CHECK_DEADLOCK FALSE
