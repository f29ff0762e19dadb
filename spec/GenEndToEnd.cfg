SPECIFICATION GSpec
CONSTANT Restarts = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
