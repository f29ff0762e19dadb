SPECIFICATION Spec
CONSTANT Old = ""
INVARIANT ErrsOnlyThen
PROPERTIES Allowed AutoComes EndComes ErrComes
CHECK_DEADLOCK FALSE
