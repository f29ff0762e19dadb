SPECIFICATION Spec
CONSTANTS MaxFaults = 1 ItemLen = 1 NConn = 1 ErrCap = 1
PROPERTIES Prompt ClosedInTheEnd Ends
CHECK_DEADLOCK FALSE
