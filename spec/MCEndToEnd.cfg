SPECIFICATION Spec
CONSTANTS Max = 2 Kills = 1 Kind = "unix" Old = ""
INVARIANTS Intact NoMore Kept
CHECK_DEADLOCK FALSE
