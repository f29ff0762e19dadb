SPECIFICATION CasesSpec
CONSTANT Ok <- PriorityOk
INVARIANT Report1
CHECK_DEADLOCK FALSE
