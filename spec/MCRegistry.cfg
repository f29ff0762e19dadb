SPECIFICATION Spec
CONSTANTS NW = 2
 Rounds = 3
INVARIANTS OnePerName FirstKept Accepted Strict
CHECK_DEADLOCK FALSE
