SPECIFICATION LiveSpec
CONSTANTS S = {1}
 R = {1}
 C = {1, 2}
PROPERTIES Gone
CHECK_DEADLOCK FALSE
