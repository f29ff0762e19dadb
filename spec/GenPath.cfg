SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
