SPECIFICATION Spec
CONSTANTS S = {1, 2}
 R = {1, 2}
 C = {1, 2}
INVARIANTS Tight Clean Bounded Rest
CHECK_DEADLOCK FALSE
