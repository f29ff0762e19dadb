SPECIFICATION GSpec
CONSTANT Restarts = FALSE
INVARIANT Out
CHECK_DEADLOCK FALSE
