SPECIFICATION Spec
CONSTANTS Max = 1 Kills = 1 Kind = "unix" Old = ""
INVARIANTS Intact NoMore Kept
PROPERTY Comes
CHECK_DEADLOCK FALSE
