SPECIFICATION TraceSpec
CONSTANT ErrCap = 10
INVARIANT Report1
CHECK_DEADLOCK FALSE
