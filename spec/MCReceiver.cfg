SPECIFICATION SafeSpec
CONSTANTS MaxFaults = 2 ItemLen = 2 NConn = 2 ErrCap = 1
INVARIANTS InOrder NotEarly NothingAfterLost EndOk
PROPERTIES NoAcceptAfterEnd
CHECK_DEADLOCK FALSE
