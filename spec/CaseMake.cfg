SPECIFICATION CasesSpec
CONSTANT Ok <- MakeOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
