SPECIFICATION TraceSpec
INVARIANTS Theorems Report1
CHECK_DEADLOCK FALSE
