SPECIFICATION CasesSpec
CONSTANT Ok <- ParseOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
