SPECIFICATION Spec
CONSTANTS MaxLen = 3 Runs = {2, 3}
INVARIANT Alike
CHECK_DEADLOCK FALSE
