SPECIFICATION CasesSpec
CONSTANT Ok <- SDOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
