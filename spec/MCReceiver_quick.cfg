SPECIFICATION SafeSpec
CONSTANTS MaxFaults = 1 ItemLen = 1 NConn = 2 ErrCap = 1
INVARIANTS InOrder NotEarly NothingAfterLost EndOk
PROPERTIES NoAcceptAfterEnd
CHECK_DEADLOCK FALSE
