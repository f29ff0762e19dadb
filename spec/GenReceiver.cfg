SPECIFICATION GSpec
CONSTANTS MaxFaults = 4 ItemLen = 2 NConn = 3 ErrCap = 10
CONSTANT Streams <- GenStreams
INVARIANT Out
CHECK_DEADLOCK FALSE
