SPECIFICATION CasesSpec
CONSTANT Ok <- TokOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
