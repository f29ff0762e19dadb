SPECIFICATION TraceSpec
CONSTANTS S = {1, 2, 3, 4, 5, 6, 7, 8}
 R = {1, 2, 3}
 C = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANT Report1
CHECK_DEADLOCK FALSE
