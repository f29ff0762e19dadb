SPECIFICATION TraceSpec
INVARIANT Report1
CHECK_DEADLOCK FALSE
