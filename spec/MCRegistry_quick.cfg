SPECIFICATION Spec
CONSTANTS NW = 2
 Rounds = 2
INVARIANTS OnePerName FirstKept Accepted Strict
CHECK_DEADLOCK FALSE
