SPECIFICATION Spec
CONSTANTS MaxLen = 4 Runs = {2, 3, 40}
INVARIANT Alike
CHECK_DEADLOCK FALSE
