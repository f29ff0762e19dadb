SPECIFICATION CasesSpec
CONSTANT Ok <- TQOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
